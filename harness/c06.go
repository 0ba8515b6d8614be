package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode"
)

func init() {
	checks["C06"] = check{
		level: "runtime monitoring of randomised queries against a reference selection",
		rule:  "a case is one query (category, title text, trashed flag, UID) on a random vault through the facade or the command line; distinct = distinct (vault, query) pairs with a non-empty vault",
		run:   runC06,
	}
}

func mixCase(r *rand.Rand, s string) string {
	o := []rune(s)
	for i := range o {
		if r.Intn(2) == 0 {
			if u := unicode.ToUpper(o[i]); unicode.ToLower(u) == unicode.ToLower(o[i]) && len(string(u)) == len(string(o[i])) {
				o[i] = u
			}
		} else {
			o[i] = unicode.ToLower(o[i])
		}
	}
	return string(o)
}

func sub(r *rand.Rand, s string) string {
	o := []rune(s)
	if len(o) == 0 {
		return ""
	}
	i := r.Intn(len(o))
	j := i + 1 + r.Intn(len(o)-i)
	return strings.TrimSpace(string(o[i:j]))
}

type listed struct{ Uid, Cat, Title string }

// sameListing compares a listing with the reference; equal (category, title) pairs may come in any order.
func sameListing(got []listed, want []*VItem, trimmed bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d items instead of %d", len(got), len(want))
	}
	type key struct{ c, t string }
	uids := map[string]*VItem{}
	for _, w := range want {
		uids[w.UID] = w
	}
	for i, g := range got {
		w := uids[g.Uid]
		if w == nil {
			return fmt.Sprintf("item %s does not belong there or comes twice", g.Uid)
		}
		delete(uids, g.Uid)
		title := w.Title
		if trimmed { // a table cell does not show blanks at the edges
			title = strings.TrimSpace(title)
		}
		if g.Cat != catNames[w.Cat] || g.Title != title {
			return fmt.Sprintf("item %s is listed as %q/%q", g.Uid, g.Cat, g.Title)
		}
		if want[i].Cat != w.Cat || want[i].Title != w.Title {
			return fmt.Sprintf("row %d is %s %q, expected %s %q", i+1, g.Cat, g.Title, catNames[want[i].Cat], want[i].Title)
		}
	}
	return ""
}

// parseTable reads the rows of the printed listing.
func parseTable(out string) ([]listed, string) {
	var rows []listed
	for _, l := range strings.Split(out, "\n") {
		if !strings.HasPrefix(l, "║") {
			continue
		}
		f := strings.Split(l, "║")
		if len(f) != 6 {
			return nil, "row with an odd number of columns: " + l
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		if strings.EqualFold(f[1], "lp.") {
			continue
		}
		if f[1] != fmt.Sprint(len(rows)+1) {
			return nil, "row number " + f[1] + " out of order"
		}
		rows = append(rows, listed{f[2], f[3], f[4]})
	}
	return rows, ""
}

func runC06(c *Ctx) {
	c.B.get("driver")
	c.B.get("app")
	query := func(r *rand.Rand, v *Vault) (cat, title string, tr bool) {
		pick := func() *VItem { return v.Items[r.Intn(len(v.Items))] }
		tr = r.Intn(3) == 0
		if r.Intn(2) == 0 {
			cat = catCodes[r.Intn(len(catCodes))]
			if len(v.Items) > 0 && r.Intn(3) != 0 {
				if x := pick().Cat; catNames[x] != "" {
					cat = x
				}
			}
		}
		if r.Intn(3) != 0 {
			switch {
			case len(v.Items) > 0 && r.Intn(3) != 0:
				title = mixCase(r, sub(r, pick().Title))
			case len(v.Items) > 0 && r.Intn(2) == 0: // text the item has elsewhere, which must not count
				it := pick()
				from := []string{it.Url, fmt.Sprint(it.Overview.get("ainfo")), it.UID, it.UID[:8], catNames[it.Cat], it.Cat, "Sample", "trashed", fmt.Sprint(it.Updated)}
				if len(it.Secrets) > 0 {
					from = append(from, it.Secrets[0])
				}
				for _, s := range it.Sections {
					from = append(from, s.Title)
				}
				title = from[r.Intn(len(from))]
				if r.Intn(2) == 0 {
					title = sub(r, title)
				}
			case len(v.Items) > 0 && r.Intn(2) == 0: // patterns, reorderings and near misses of a title
				t := pick().Title
				f := strings.Fields(t)
				if len(f) > 1 && r.Intn(3) == 0 {
					t = f[len(f)-1] + " " + f[0]
				} else if len(t) > 2 {
					x := []rune(t)
					x[r.Intn(len(x))] = []rune(".?*%_x#")[r.Intn(7)]
					t = string(x)
				}
				title = strings.TrimSpace(t)
			case r.Intn(3) == 0:
				title = []string{".*", ".", "*", "?", "%", "_", "[a", "[a-z]", "^a", "x$", "\\", "(", "a|b", "tabxdot", "\"q\"", "<&>", "'", "e", "é", "  ", "A b"}[r.Intn(21)]
			case r.Intn(2) == 0:
				title = "zzznothing"
			default:
				title = mixCase(r, words[r.Intn(len(words))])
			}
		}
		return
	}
	c.each("facade", 0, c.n(260, 4000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		o := genOpts{items: r.Intn(40), trashRate: []int{0, 20, 50, 100}[r.Intn(4)], noNotes: true}
		if r.Intn(15) == 0 {
			o.items = 300
		}
		if r.Intn(3) == 0 {
			o.cats = []string{catCodes[r.Intn(len(catCodes))], catCodes[r.Intn(len(catCodes))]}
		}
		v := genVault(r, "pw", 1, o)
		v.write(r, w.vault)
		w.own()
		d, u := w.unlockDriver("pw")
		defer d.close()
		if u.Err != "" || d.bad(u) != "" {
			c.violation(i, "the vault cannot be opened: "+u.Err+d.bad(u), nil)
			return
		}
		for k := 0; k < 25; k++ {
			cat, title, tr := query(r, v)
			want := v.sel(cat, title, tr)
			q := d.call(map[string]any{"op": "list", "cat": cat, "title": title, "trashed": tr})
			wit := map[string]any{"category": cat, "title": title, "trashed": tr, "got": q.Items, "want": brief(want)}
			if b := d.bad(q); b != "" {
				c.violation(i, b, wit)
				return
			}
			var got []listed
			for _, x := range q.Items {
				if x.Trashed != tr {
					c.violation(i, "a listed item has the wrong trashed state", wit)
					return
				}
				got = append(got, listed{x.Uid, x.CatName, x.Title})
			}
			if s := sameListing(got, want, false); s != "" {
				c.violation(i, fmt.Sprintf("listing(category %q, title %q, trashed %v): %s", cat, title, tr, s), wit)
				return
			}
			n := d.call(map[string]any{"op": "count", "cat": cat, "trashed": tr})
			if n.Count != len(v.sel(cat, "", tr)) {
				c.violation(i, fmt.Sprintf("count(category %q, trashed %v) = %d, expected %d", cat, tr, n.Count, len(v.sel(cat, "", tr))), wit)
				return
			}
			if len(want) > 0 {
				c.eval(fmt.Sprint(vaultSig(v), cat, title, tr))
				c.count("non-empty listings", 1)
			} else {
				c.eval("")
			}
		}
		for k := 0; k < 20 && len(v.Items) > 0; k++ {
			it := v.Items[r.Intn(len(v.Items))]
			uid := it.UID
			switch r.Intn(9) {
			case 4:
				uid = []string{" ", "\t", "\n", "{", "0"}[r.Intn(5)] + uid
			case 5:
				uid = uid + []string{" ", "\n", "\x00", "*"}[r.Intn(4)]
			case 0:
				uid = uid[:31]
			case 1:
				uid = strings.ToLower(uid)
			case 2:
				uid = uid + "0"
			case 3:
				uid = ""
			}
			tr := r.Intn(2) == 0
			q := d.call(map[string]any{"op": "get", "uid": uid, "trashed": tr})
			x := v.find(uid)
			exists := x != nil && x.Known && x.Trashed == tr
			if q.Nil == exists || d.bad(q) != "" || exists && q.Item.Uid != uid {
				c.violation(i, fmt.Sprintf("lookup of %q (trashed %v) answers %+v", uid, tr, q.Item), itemWitness(x))
				return
			}
			c.count("lookups", 1)
			c.eval(fmt.Sprint(vaultSig(v), uid, tr))
		}
	})
	c.each("cli", 100000, c.n(160, 2500), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		n := 1 + r.Intn(15)
		if i%80 == 7 { // the collection of many years
			n = 1000 + r.Intn(2000)
		}
		v := genVault(r, "pw", 1, genOpts{items: n, trashRate: 30, noNotes: true})
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		cat, title, tr := query(r, v)
		if n > 100 && r.Intn(2) == 0 {
			cat, title, tr = "", "", false
		}
		if strings.HasPrefix(title, "-") {
			title = ""
		}
		switch r.Intn(4) {
		case 0: // lookup
			it := v.Items[r.Intn(len(v.Items))]
			uid := it.UID
			if r.Intn(4) == 0 {
				uid = hexUID(r)
			} else if r.Intn(4) == 0 {
				uid = strings.ToLower(uid)
			} else if r.Intn(6) == 0 {
				uid = uid + "x"
			}
			cmd := []string{"overview", "details"}[r.Intn(2)]
			args := []string{cmd, uid}
			if tr {
				args = append(args, []string{"-t", "--trashed"}[r.Intn(2)])
			}
			o := w.opts(args...)
			o.steps = []step{pw("pw")}
			res := c.run(o)
			x := v.find(uid)
			got := viewLines(afterPrompt(res.Out))
			if x != nil && x.Known && x.Trashed == tr {
				if !eqLines(got, x.view(cmd == "overview")) {
					c.violation(i, fmt.Sprintf("%v shows something else: %s", args, lineDiff(got, x.view(cmd == "overview"))), map[string]any{"run": res.brief(), "item": itemWitness(x)})
					return
				}
			} else if len(got) != 1 || !strings.Contains(got[0], uid) || res.crashed() || res.Timeout {
				c.violation(i, fmt.Sprintf("%v for an item that does not exist prints %q", args, got), res.brief())
				return
			}
			c.count("command line lookups", 1)
			c.eval(fmt.Sprint(args, vaultSig(v)))
			return
		case 1: // unknown category
			bad := []string{"Logins", "Logi", "001", "Credit", "creditcard", "Bank  Account", "x", "Trash", "All", "Log*", ".", "Bank_Account", "1", "   "}[r.Intn(14)]
			name := catNames[catCodes[r.Intn(len(catCodes))]]
			switch r.Intn(6) {
			case 0:
				bad = name[:1+r.Intn(len(name)-1)]
			case 1:
				bad = name[1:]
			case 2:
				bad = name + "s"
			case 3:
				bad = "a" + name
			case 4:
				bad = catCodes[r.Intn(len(catCodes))]
			}
			for _, n := range catNames {
				if strings.EqualFold(strings.TrimSpace(bad), n) {
					bad = "nope"
				}
			}
			args := []string{"list", "-c", bad}
			o := w.opts(args...)
			o.steps = []step{pw("pw")}
			res := c.run(o)
			if rows, _ := parseTable(res.Out); len(rows) > 0 || res.Code == 0 || res.crashed() || !strings.Contains(res.Out, "unknown item category") {
				c.violation(i, fmt.Sprintf("unknown category %q is not rejected", bad), res.brief())
				return
			}
			c.count("unknown categories rejected", 1)
			c.eval("unknown " + bad)
			return
		}
		if r.Intn(12) == 0 {
			res := c.run(w.opts("categories"))
			var want []string
			for _, code := range catCodes {
				want = append(want, code)
			}
			sort.Strings(want)
			var got []string
			for _, l := range strings.Split(res.Out, "\n") {
				if f := strings.Split(l, "║"); len(f) == 4 && !strings.EqualFold(strings.TrimSpace(f[1]), "lp.") {
					got = append(got, strings.TrimSpace(f[1])+" "+strings.TrimSpace(f[2]))
				}
			}
			for k := range want {
				want[k] = fmt.Sprint(k+1) + " " + catNames[want[k]]
			}
			if x := lineDiff(got, want); x != "" || res.Code != 0 {
				c.violation(i, "categories: "+x, res.brief())
				return
			}
			c.count("category listings", 1)
		}
		args := []string{"list"}
		title = strings.TrimSpace(title)
		if cat != "" {
			n := mixCase(r, catNames[cat])
			if r.Intn(6) == 0 {
				n = " " + n + "  "
			}
			args = append(args, []string{"-c", "--category"}[r.Intn(2)], n)
		}
		if title != "" {
			args = append(args, []string{"-n", "--name"}[r.Intn(2)], []string{"", "", "", " ", "\t"}[r.Intn(5)]+title+[]string{"", "", "", " "}[r.Intn(4)])
		}
		if tr {
			args = append(args, []string{"-t", "--trashed"}[r.Intn(2)])
		}
		o := w.opts(args...)
		o.steps = []step{pw("pw")}
		res := c.run(o)
		want := v.sel(cat, title, tr)
		got, e := parseTable(res.Out)
		if e == "" {
			e = sameListing(got, want, true)
		}
		if e != "" || res.crashed() || res.Timeout || res.Code != 0 {
			c.violation(i, fmt.Sprintf("%v: %s (status %d)", args, e, res.Code), map[string]any{"run": res.brief(), "want": brief(want)})
			return
		}
		c.count("command line listings", 1)
		c.count("command line rows", len(got))
		c.eval(fmt.Sprint(args, vaultSig(v)))
		c.sample(map[string]any{"args": args, "rows": len(got), "vault items": len(v.Items)})
	})
	// an unchanged vault is listed in the same order by every run and after every unlock, whatever titles items share
	c.each("again", 200000, c.n(40, 700), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 1, genOpts{items: 4 + r.Intn(30), trashRate: 15, noNotes: true, noUnknown: true, cats: []string{catCodes[r.Intn(len(catCodes))], catCodes[r.Intn(len(catCodes))]}})
		names := []string{"", "same", "Same", "other", "éclair"}
		for _, it := range v.Items {
			it.Title = names[r.Intn(len(names))]
			it.Overview = omap{{"title", it.Title}}
			v.seal(r, it)
		}
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		tr := r.Intn(4) == 0
		var first []string
		for k := 0; k < 5; k++ {
			var got []string
			how := "command"
			if k < 3 {
				how = "facade"
				d, u := w.unlockDriver("pw")
				if u.Err != "" || d.bad(u) != "" {
					d.close()
					c.violation(i, "the vault cannot be opened: "+u.Err+d.bad(u), nil)
					return
				}
				for _, x := range d.call(map[string]any{"op": "list", "cat": "", "title": "", "trashed": tr}).Items {
					got = append(got, x.Uid)
				}
				d.close()
			} else {
				args := []string{"list"}
				if tr {
					args = append(args, "-t")
				}
				o := w.opts(args...)
				o.steps = []step{pw("pw")}
				rows, bad := parseTable(c.run(o).Out)
				if bad != "" {
					c.violation(i, bad, nil)
					return
				}
				for _, x := range rows {
					got = append(got, x.Uid)
				}
			}
			if k == 0 {
				first = got
			} else if !reflect.DeepEqual(first, got) {
				c.violation(i, fmt.Sprintf("the same vault is listed in another order by a later run (%s)", how), map[string]any{"first": first, "later": got, "trashed": tr, "items": brief(v.Items)})
				return
			}
			c.count("listings of an unchanged vault compared", 1)
		}
		c.eval("again " + vaultSig(v))
	})
}

func brief(l []*VItem) []string {
	var out []string
	for _, it := range l {
		out = append(out, it.UID+" "+it.Cat+" "+it.Title)
	}
	return out
}
