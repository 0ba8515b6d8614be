package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	checks["C21"] = check{
		level: "runtime monitoring of the real program on structurally damaged vault and settings files, with the independent vault writer as oracle for everything intact",
		rule:  "a case is one damaged file (profile, band, item record, sealed item content or settings) read by one command, driver or GUI session; distinct = distinct (file, kind of damage, reader) combinations observed",
		run:   runC21,
	}
}

// oddJSON is a value of an unexpected kind.
func oddJSON(r *rand.Rand) any {
	vs := []any{nil, true, false, 0, 1, -1, 3.5, 1e300, 123456789012345, "", "x", []any{}, []any{nil}, []any{1, "a", map[string]any{}}, map[string]any{}, map[string]any{"a": nil},
		map[string]any{"fields": 1}, "\u0000", strings.Repeat("A", 4000), []any{[]any{[]any{}}}, "AAAA", "====", -0.0, "null"}
	return vs[r.Intn(len(vs))]
}

func kindOf(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		if x == "" {
			return "empty string"
		}
		return "string"
	case []any:
		return "list"
	case map[string]any, omap:
		return "object"
	}
	return "number"
}

// spoilText damages a file at the level of its bytes.
func spoilText(r *rand.Rand, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	at := func() int { return r.Intn(len(b)) }
	switch r.Intn(14) {
	case 0:
		return nil, "emptied"
	case 1:
		return b[:r.Intn(min(len(b), 20))], "cut to a few bytes"
	case 2:
		return b[:at()], "cut"
	case 3:
		return b[:len(b)-1-r.Intn(min(len(b)-1, 8))], "last bytes missing"
	case 4:
		return rbytes(r, r.Intn(300)), "random bytes"
	case 5:
		n := at()
		b[n] ^= 1 << r.Intn(8)
		return b, "bit flip"
	case 6:
		n := at()
		return append(b[:n:n], b[min(len(b), n+1+r.Intn(40)):]...), "bytes missing"
	case 7:
		n := at()
		return append(append(append([]byte{}, b[:n]...), []string{"}", "{", "]", "\"", ",", "\x00", "null", "\n", "});", ":"}[r.Intn(10)]...), b[n:]...), "bytes inserted"
	case 8:
		for i := range b {
			b[i] = 0
		}
		return b, "zeroed"
	case 9:
		return append(append([]byte{}, b...), b...), "doubled"
	case 10:
		return []byte(strings.TrimSpace([]string{"ld(", "var profile=", "", "ld({", "<html></html>", "null", "[]", "{}", "ld({});", "var profile={};", "var profile=null;", "var profile=[];", "ld([]);", "ld(null);", "var profile=0;"}[r.Intn(15)])), "something else"
	case 11:
		n := at()
		for k := n; k < len(b) && k < n+512; k++ {
			b[k] = 0
		}
		return b, "zeroed block"
	case 12:
		return append(b, rbytes(r, 1+r.Intn(50))...), "bytes appended"
	default:
		return []byte(strings.Repeat([]string{"[", "{\"a\":", "ld({\"a\":"}[r.Intn(3)], 1+r.Intn(20000))), "deeply nested"
	}
}

// oddSeal seals plaintext in a well authenticated container of odd shape.
func oddSeal(r *rand.Rand, plain, key, mkey []byte) ([]byte, string) {
	b := opdata(r, plain, key, mkey)
	body := b[:len(b)-32]
	kind := ""
	switch r.Intn(5) {
	case 0:
		binary.LittleEndian.PutUint64(body[8:], uint64(len(body)-32+1+r.Intn(1000)))
		kind = "length beyond the data"
	case 1:
		binary.LittleEndian.PutUint64(body[8:], ^uint64(0)-uint64(r.Intn(3)))
		kind = "negative length"
	case 2:
		body = body[:len(body)-1-r.Intn(15)]
		kind = "broken last block"
	case 3:
		body = body[:32]
		kind = "no data"
	case 4:
		body = append(body, rbytes(r, 1+r.Intn(15))...)
		kind = "data between blocks"
	}
	return append(append([]byte{}, body...), mac(mkey, body)...), kind
}

func goCrash(s string) bool {
	return strings.Contains(s, "panic:") || strings.Contains(s, "goroutine 1 [") || strings.Contains(s, "runtime error") || strings.Contains(s, "fatal error:")
}

func runC21(c *Ctx) {
	c.B.get("app")
	c.B.get("driver")
	c.B.get("gui")
	// honest says whether a command on a damaged vault ended in one of the permitted ways.
	honest := func(v *Vault, args []string, res *result) string {
		switch {
		case res.crashed() || goCrash(res.Out):
			return "crashed"
		case res.Timeout:
			return "hangs"
		case res.Stuck != "" && res.Stuck != "Password:":
			return "is stuck"
		case res.Code != 0 && strings.TrimSpace(afterPrompt(res.Out)) == "":
			return fmt.Sprintf("ends with status %d and no message", res.Code)
		}
		if args[0] == "list" { // nothing but stored items, with their own titles
			for _, l := range strings.Split(res.Out, "\n") {
				cells := strings.Split(l, "║")
				if len(cells) < 6 || strings.Contains(l, "UID") || strings.Contains(l, " uid ") {
					continue
				}
				t := strings.TrimSpace(strings.Join(cells[4:len(cells)-1], "║"))
				ok := t == ""
				for _, it := range v.Items {
					ok = ok || strings.TrimSpace(it.Title) == t
				}
				if !ok {
					return fmt.Sprintf("lists %q, which no item is called", t)
				}
			}
		}
		return ""
	}
	commands := func(r *rand.Rand, it *VItem) []string {
		args := []string{[]string{"list", "details", "overview"}[r.Intn(3)]}
		if args[0] == "list" {
			if r.Intn(4) == 0 {
				args = append(args, "-t")
			}
			return args
		}
		args = append(args, it.UID)
		if it.Trashed {
			args = append(args, "-t")
		}
		return args
	}
	ask := []step{{expect: "Password:", noEcho: true, send: "pw\n", maybe: true}}
	// reader opens the damaged vault on the command line or in the GUI
	lost := map[string]bool{} // damages after which items cannot be read, so that a listing would be incomplete
	for _, k := range []string{"unreadable", "a directory", "not listable", "emptied", "cut to a few bytes", "cut", "cut between records", "last bytes missing"} {
		lost["band: "+k] = true
	}
	reader := func(i int, r *rand.Rand, w *world, v *Vault, what string) bool {
		it := v.Items[r.Intn(len(v.Items))]
		if r.Intn(6) == 0 {
			g := c.guiStart(runOpts{home: w.home, allow: []string{w.dir}}, "gui", 100, 30, nil)
			defer g.kill()
			f := g.first()
			if f != nil {
				for _, k := range append(keys("pw"), gkey{Key: kEnter}, gkey{Key: kEnter}, ch('j'), gkey{Key: kTab}, ch('j')) {
					if f = g.press(k); f == nil {
						break
					}
				}
			}
			how := "works"
			if f == nil {
				g.waitExit(20e9)
				how = "ends"
				if !g.hasExited() {
					c.violation(i, "the GUI hangs on a damaged file: "+what, g.witness(map[string]any{"damage": what}))
					return false
				}
			}
			e := g.stderr()
			if goCrash(e) || g.killed {
				c.violation(i, "the GUI crashes on a damaged file: "+what, g.witness(map[string]any{"damage": what}))
				return false
			}
			if lost[what] && how == "works" {
				c.violation(i, "the GUI passes over a damaged file: "+what, g.witness(map[string]any{"damage": what}))
				return false
			}
			c.count("GUI "+how, 1)
			c.eval("gui " + what)
			return true
		}
		args := commands(r, it)
		o := w.opts(args...)
		o.steps = ask
		res := c.run(o)
		wit := map[string]any{"damage": what, "args": args, "run": res.brief()}
		if x := honest(v, args, res); x != "" {
			c.violation(i, fmt.Sprintf("'%s' on a vault with a damaged file (%s) %s", args[0], what, x), wit)
			return false
		}
		if lost[what] && args[0] == "list" && res.Code == 0 {
			c.violation(i, fmt.Sprintf("'list' passes over a damaged file (%s) as if nothing were missing", what), wit)
			return false
		}
		c.count(fmt.Sprintf("status %d", res.Code), 1)
		c.eval(args[0] + " " + what)
		if i%211 == 3 {
			c.sample(wit)
		}
		return true
	}
	small := func(r *rand.Rand) *Vault {
		return genVault(r, "pw", 2, genOpts{items: 2 + r.Intn(8), noUnknown: true, uniqueTitles: true, narrow: true, trashRate: 20})
	}
	c.each("profile", 0, c.n(260, 4000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := small(r)
		v.write(r, w.vault)
		w.quiet(w.vault)
		p := filepath.Join(w.vault, "default", "profile.js")
		b, _ := os.ReadFile(p)
		kind := ""
		if r.Intn(2) == 0 {
			b, kind = spoilText(r, b)
		} else {
			var m map[string]any
			if err := json.Unmarshal(b[12:len(b)-1], &m); err != nil {
				infra("profile: %v", err)
			}
			k := []string{"iterations", "masterKey", "overviewKey", "salt"}[r.Intn(4)]
			if r.Intn(4) == 0 {
				delete(m, k)
				kind = k + " missing"
			} else {
				x := oddJSON(r)
				if n, ok := x.(int); ok && n > 1000000 {
					x = 7
				}
				if _, ok := x.(float64); ok { // an absurd number of rounds takes its time
					x = 3.5
				}
				m[k] = x
				kind = k + " is a " + kindOf(x)
			}
			j, _ := json.Marshal(m)
			b = []byte("var profile=" + string(j) + ";")
		}
		mustWrite(p, b)
		if r.Intn(12) == 0 {
			os.Chmod(p, 0)
			kind = "unreadable"
		}
		w.own()
		reader(i, r, w, v, "profile: "+kind)
	})
	c.each("band", 100000, c.n(260, 4000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := small(r)
		v.write(r, w.vault)
		w.quiet(w.vault)
		fs, _ := filepath.Glob(filepath.Join(w.vault, "default", "band_*.js"))
		sort.Strings(fs)
		p := fs[r.Intn(len(fs))]
		b, _ := os.ReadFile(p)
		kind := ""
		after := func() {}
		switch r.Intn(10) {
		case 0:
			os.Chmod(p, 0)
			kind = "unreadable"
		case 1:
			os.Remove(p)
			os.Mkdir(p, 0755)
			kind = "a directory"
		case 2:
			kind = "not listable"
			after = func() { os.Chmod(filepath.Join(w.vault, "default"), 0311) }
			defer os.Chmod(filepath.Join(w.vault, "default"), 0755)
		case 3: // what is left would be well-formed if its last three characters were ignored
			at := strings.Split(string(b), "},\"")
			if len(at) == 1 {
				return
			}
			mustWrite(p, []byte(strings.Join(at[:1+r.Intn(len(at)-1)], "},\"")+"},\"A"))
			kind = "cut between records"
		default:
			b, kind = spoilText(r, b)
			mustWrite(p, b)
		}
		w.own()
		after()
		reader(i, r, w, v, "band: "+kind)
	})
	// one record, or the sealed content of one item, is odd: all others are as ever
	c.each("item", 200000, c.n(520, 7000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := small(r)
		odd := map[string]string{}
		intact := &Vault{Password: "pw"}
		for k, it := range v.Items {
			if k > 0 && r.Intn(3) > 0 {
				intact.Items = append(intact.Items, it)
				continue
			}
			kind := ""
			switch n := r.Intn(4); {
			case n == 3: // well sealed, but something else inside
				x := []string{"[1,2]", "42", "null", "\"text\"", "true", "", "{", "{\"title\":\"cut", "not json", "{}x", "[]", "\xff\xfe\x00", "{\"title\":\"a\"}{\"title\":\"b\"}", " ", "{1:2}", strings.Repeat("[", 3000),
					"{\"title\":{\"title\":[{}]}}", "<xml/>", "\x00\x00\x00\x00"}[r.Intn(19)]
				if r.Intn(2) == 0 {
					it.O, kind = b64(opdata(r, []byte(x), v.ok, v.om)), "overview is "+firstN(x, 20)
				} else {
					ik := v.itemKeys(it)
					it.D, kind = b64(opdata(r, []byte(x), ik[:32], ik[32:])), "details are "+firstN(x, 20)
				}
				v.raw(it)
			case n == 0: // the stored record
				if r.Intn(8) == 0 {
					kind = "record replaced"
					break
				}
				f := []string{"category", "o", "d", "k", "hmac", "created", "updated", "trashed"}[r.Intn(8)]
				x := oddJSON(r)
				gone := r.Intn(3) == 0
				var raw omap
				for _, e := range it.Raw {
					if e.K != f {
						raw = append(raw, e)
					} else if !gone {
						raw = append(raw, kv{f, x})
					}
				}
				it.Raw = raw
				kind = f + " is a " + kindOf(x)
				if gone {
					kind = f + " missing"
				}
			case n == 1: // odd values inside
				kind = spoilContent(r, it)
				v.seal(r, it)
			default: // authentic but odd container
				if r.Intn(2) == 0 {
					p, _ := json.Marshal(it.Overview)
					b, k := oddSeal(r, p, v.ok, v.om)
					it.O, kind = b64(b), "overview: "+k
				} else {
					p, _ := json.Marshal(it.Details)
					ik := v.itemKeys(it)
					b, k := oddSeal(r, p, ik[:32], ik[32:])
					it.D, kind = b64(b), "details: "+k
				}
				v.raw(it)
			}
			odd[it.UID] = kind
		}
		v.write(r, w.vault)
		for _, it := range v.Items { // a record that is not an object at all
			if odd[it.UID] == "record replaced" {
				p := filepath.Join(w.vault, "default", "band_"+strings.ToUpper(it.UID[:1])+".js")
				b, err := os.ReadFile(p)
				if err != nil {
					continue
				}
				raw, _ := json.Marshal(it.Raw)
				x, _ := json.Marshal(oddJSON(r))
				mustWrite(p, []byte(strings.Replace(string(b), string(raw), string(x), 1)))
			}
		}
		w.quiet(w.vault)
		w.own()
		d, u := w.unlockDriver("pw")
		defer d.close()
		wit := map[string]any{"damages": odd}
		if u.Err != "" || d.bad(u) != "" {
			c.violation(i, "one odd item closes the whole vault: "+u.Err+d.bad(u), wit)
			return
		}
		for _, tr := range []bool{false, true} {
			q := d.call(map[string]any{"op": "list", "trashed": tr})
			if b := d.bad(q); b != "" {
				c.violation(i, "listing next to an odd item: "+b, wit)
				return
			}
			listed := map[string]string{}
			for _, x := range q.Items {
				listed[x.Uid] = x.Title
			}
			for _, it := range intact.Items {
				if t, ok := listed[it.UID]; it.Trashed == tr && (!ok || t != it.Title) {
					wit["item"] = itemWitness(it)
					c.violation(i, fmt.Sprintf("an intact item next to an odd one is listed as %q (%v)", t, ok), wit)
					return
				}
			}
		}
		for _, it := range v.Items {
			for _, tr := range []bool{false, true} {
				q := d.call(map[string]any{"op": "get", "uid": it.UID, "trashed": tr})
				if b := d.bad(q); b != "" {
					c.violation(i, "reading an item: "+b, wit)
					return
				}
				if odd[it.UID] != "" || tr != it.Trashed {
					continue
				}
				if q.Item == nil {
					c.violation(i, "an intact item next to an odd one has vanished", wit)
					return
				}
				if x := diffItem(it, q.Item); x != "" {
					wit["item"] = itemWitness(it)
					c.violation(i, "an intact item next to an odd one shows something else: "+x, wit)
					return
				}
				c.count("intact neighbours observed", 1)
			}
		}
		for _, k := range odd {
			c.eval("item " + k)
			c.count("odd items", 1)
		}
		if i%2 == 0 { // and on the command line: the odd item itself
			for _, it := range v.Items {
				if odd[it.UID] == "" {
					continue
				}
				args := []string{[]string{"details", "overview", "list"}[r.Intn(3)], it.UID}
				if args[0] == "list" {
					args = args[:1]
				}
				if r.Intn(2) == 0 && it.Trashed {
					args = append(args, "-t")
				}
				o := w.opts(args...)
				o.steps = []step{pw("pw")}
				res := c.run(o)
				if res.crashed() || goCrash(res.Out) || res.Timeout || res.Code != 0 {
					c.violation(i, fmt.Sprintf("'%s' with an odd item (%s) fails", args[0], odd[it.UID]), map[string]any{"damages": odd, "args": args, "run": res.brief()})
					return
				}
				c.eval("cli " + args[0] + odd[it.UID])
				break
			}
		}
	})
	c.each("settings", 300000, c.n(260, 4000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := small(r)
		v.write(r, w.vault)
		p := filepath.Join(w.cfg, "1pass.yml")
		good := fmt.Sprintf("opvault: %s\ntimeout: 7\nupdate-notification: false\nupdate-period: 9\n", yq(w.vault))
		want := cfgVals{w.vault, 7, false, 9}
		known := false // the remaining settings are known
		kind := ""
		switch n := r.Intn(10); {
		case n < 6:
			k := r.Intn(3)
			key := []string{"timeout", "update-notification", "update-period"}[k]
			odd := []string{"abc", "1.5", "[1, 2]", "{a: 1}", "null", "~", "\"\"", "'7'", "2020-01-01", "12x", "1e3", "99999999999999999999999999", "[]", ".nan", "!!binary aGk=", "|\n  many\n  lines"}
			if k != 1 {
				odd = append(odd, "true", "no")
			} else {
				odd = append(odd, "0", "1", "'true'")
			}
			x := odd[r.Intn(len(odd))]
			kind = key + " is " + x
			lines := strings.SplitAfter(good, "\n")
			lines[k+1] = key + ": " + x + "\n"
			w.config(strings.Join(lines, ""))
			switch k {
			case 0:
				want.Timeout = defaultCfg.Timeout
			case 1:
				want.Notify = defaultCfg.Notify
			default:
				want.Period = defaultCfg.Period
			}
			known = true
		case n < 8:
			b, k := spoilText(r, []byte(good))
			kind = "text " + k
			w.config(string(b))
		case n == 8:
			kind = "other document"
			w.config([]string{"- a\n- b\n", "just text\n", "42\n", "1: 2\n3: 4\n", "? {a: b}\n: c\n", "\t\tx: y\n", "a: &a [*a]\n", "opvault: [\n", "%YAML 9.9\n---\n", "opvault: x\nopvault: y\n", "!!int x\n", "---\na: 1\n---\nb: 2\n", "\xff\xfe\x00"}[r.Intn(13)])
		default:
			if r.Intn(2) == 0 {
				os.MkdirAll(p, 0755)
				kind = "a directory"
			} else {
				w.config(good)
				os.Chmod(p, 0)
				kind = "unreadable"
			}
		}
		w.own()
		if known {
			d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
			b := d.bad(d.call(map[string]any{"op": "new", "path": w.cfg}))
			var got cfgVals
			if b == "" {
				got, b = d.cfg()
			}
			d.close()
			if b != "" || got != want {
				c.violation(i, fmt.Sprintf("settings where %s are read as %+v instead of %+v %s", kind, got, want, b), map[string]any{"damage": kind})
				return
			}
		}
		args := [][]string{{"list"}, {"list", "-v", w.vault}, {"configure"}, {"categories"}, {"details", v.Items[0].UID, "-v", w.vault}, {"version"}, {"update"}}[r.Intn(7)]
		o := w.opts(args...)
		o.steps = ask
		if args[0] == "configure" || args[0] == "categories" || args[0] == "version" || args[0] == "update" || !known {
			o.pipe = true
			o.steps = []step{{send: "n\n\n\n\n"}}
		}
		res := c.run(o)
		wit := map[string]any{"damage": kind, "args": args, "run": res.brief()}
		switch {
		case res.crashed() || goCrash(res.Out) || res.Timeout:
			c.violation(i, fmt.Sprintf("'%s' crashes or hangs on settings where %s", args[0], kind), wit)
			return
		case res.Code != 0 && strings.TrimSpace(res.Out) == "":
			c.violation(i, fmt.Sprintf("'%s' ends with status %d and no message", args[0], res.Code), wit)
			return
		case known && args[0] != "update" && (res.Code != 0 || res.Stuck != ""):
			c.violation(i, fmt.Sprintf("'%s' fails (status %d) although only %s", args[0], res.Code, kind), wit)
			return
		}
		c.count("damaged settings", 1)
		c.eval("settings " + kind + " " + args[0])
	})
}

// itemKeys recovers the item's own keys.
func (v *Vault) itemKeys(it *VItem) []byte {
	kb := unb64(it.K)
	return cbcOpen(v.mk, kb[:16], kb[16:80])
}

// spoilContent puts values of unexpected kinds into the plaintext of an item.
func spoilContent(r *rand.Rand, it *VItem) string {
	x := oddJSON(r)
	f := func(m map[string]any) omap {
		var o omap
		for k, e := range m {
			o = append(o, kv{k, e})
		}
		sort.Slice(o, func(a, b int) bool { return o[a].K < o[b].K })
		return o
	}
	field := func(k, t, v any) omap { return f(map[string]any{"k": k, "t": t, "v": v, "n": "n"}) }
	lacking := func(drop string) omap {
		m := map[string]any{"k": "string", "t": "label", "v": "val", "n": "n"}
		delete(m, drop)
		return f(m)
	}
	set := func(o omap, k string, v any) omap {
		var out omap
		for _, e := range o {
			if e.K != k {
				out = append(out, e)
			}
		}
		return append(out, kv{k, v})
	}
	section := func(fs ...any) []any { return []any{omap{{"name", "s"}, {"title", "sect"}, {"fields", fs}}} }
	where := []string{"title", "url", "notes", "fields", "field", "field value", "field name", "sections", "section", "section title", "section fields", "section field", "kind", "label", "value", "address", "address part", "date",
		"month", "no kind", "no label", "no value", "whole overview", "whole details"}
	k := where[r.Intn(len(where))]
	switch k {
	case "title":
		it.Overview = set(it.Overview, "title", x)
	case "url":
		it.Overview = set(it.Overview, "url", x)
	case "notes":
		it.Details = set(it.Details, "notesPlain", x)
	case "fields":
		it.Details = set(it.Details, "fields", x)
	case "field":
		it.Details = set(it.Details, "fields", []any{x, omap{{"name", "n"}, {"value", "v"}}})
	case "field value":
		it.Details = set(it.Details, "fields", []any{omap{{"name", "n"}, {"value", x}}})
	case "field name":
		it.Details = set(it.Details, "fields", []any{omap{{"name", x}, {"value", "v"}}})
	case "sections":
		it.Details = set(it.Details, "sections", x)
	case "section":
		it.Details = set(it.Details, "sections", []any{x})
	case "section title":
		it.Details = set(it.Details, "sections", []any{omap{{"title", x}, {"fields", []any{lacking("")}}}})
	case "section fields":
		it.Details = set(it.Details, "sections", []any{omap{{"title", "t"}, {"fields", x}}})
	case "section field":
		it.Details = set(it.Details, "sections", section(x))
	case "kind":
		it.Details = set(it.Details, "sections", section(field(x, "label", "val")))
	case "label":
		it.Details = set(it.Details, "sections", section(field("string", x, "val")))
	case "value":
		it.Details = set(it.Details, "sections", section(field([]string{"string", "concealed", "reference"}[r.Intn(3)], "label", x)))
	case "address":
		it.Details = set(it.Details, "sections", section(field("address", "label", x)))
	case "address part":
		it.Details = set(it.Details, "sections", section(field("address", "label", omap{{"city", x}, {"zip", "1"}})))
	case "date":
		it.Details = set(it.Details, "sections", section(field("date", "label", x)))
	case "month":
		it.Details = set(it.Details, "sections", section(field("monthYear", "label", x)))
	case "no kind":
		it.Details = set(it.Details, "sections", section(lacking("k")))
	case "no label":
		it.Details = set(it.Details, "sections", section(lacking("t")))
	case "no value":
		it.Details = set(it.Details, "sections", section(lacking("v")))
	case "whole overview":
		it.Overview = omap{{"x", x}}
	case "whole details":
		it.Details = omap{{"x", x}}
	}
	return "content: " + k + " is a " + kindOf(x)
}
