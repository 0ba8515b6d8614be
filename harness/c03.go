package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	checks["C03"] = check{
		level: "runtime monitoring under injected data corruption, with an independent OPVault writer as oracle",
		rule:  "a case is one altered blob (overview, details or keys of one item, or a profile key) inside a vault whose other items stay intact; distinct = distinct (blob, kind of alteration, position class) combinations observed",
		run:   runC03,
	}
}

// alter changes the base64 text of a blob; it reports the kind and whether the stored bytes are still the original ones.
func alter(r *rand.Rand, orig string, other []string) (string, string, bool) {
	raw, err := base64.StdEncoding.DecodeString(orig)
	if err != nil {
		infra("blob: %v", err)
	}
	b := append([]byte{}, raw...)
	kind := ""
	switch r.Intn(15) {
	case 0, 1, 2:
		n := r.Intn(len(b))
		b[n] ^= 1 << r.Intn(8)
		kind = "bit flip in " + region(n, len(b))
	case 3:
		n := r.Intn(8)
		b[8+n] ^= byte(1 + r.Intn(255))
		kind = "length field"
	case 4:
		n := r.Intn(len(b))
		b = b[:n]
		kind = "cut to " + lenClass(n)
	case 5:
		n := 16 * r.Intn(len(b)/16)
		b = b[:n]
		kind = "cut at block " + lenClass(n)
	case 6:
		b = append(b, rbytes(r, 1+r.Intn(64))...)
		kind = "extended"
	case 7:
		b = nil
		kind = "emptied"
	case 8:
		n := 1 + r.Intn(80)
		b = rbytes(r, n)
		kind = "random bytes " + lenClass(n)
	case 9:
		for i := range b {
			b[i] = 0
		}
		kind = "zeroed"
	case 10: // a ciphertext block moved
		if len(b) >= 32+48+32 {
			i, j := 32+16*r.Intn((len(b)-64)/16), 32+16*r.Intn((len(b)-64)/16)
			for k := 0; k < 16; k++ {
				b[i+k], b[j+k] = b[j+k], b[i+k]
			}
			kind = "blocks exchanged"
		} else {
			b[len(b)/2] ^= 0x10
			kind = "bit flip in middle"
		}
	case 11: // MAC removed or replaced
		if r.Intn(2) == 0 {
			b = b[:len(b)-32]
			kind = "MAC removed"
		} else {
			copy(b[len(b)-32:], make([]byte, 32))
			kind = "MAC zeroed"
		}
	case 12: // text-level damage
		t := []byte(orig)
		switch r.Intn(4) {
		case 0:
			t[r.Intn(len(t))] = "!@-_ \x7f"[r.Intn(6)]
			kind = "text: foreign character"
		case 1:
			t = t[:r.Intn(len(t))]
			kind = "text: cut"
		case 2:
			n := r.Intn(len(t))
			t = append(t[:n:n], t[n+1:]...)
			kind = "text: character dropped"
		case 3:
			t = append(t, "AAAA"[:1+r.Intn(4)]...)
			kind = "text: characters appended"
		}
		d, err := base64.StdEncoding.DecodeString(string(t))
		_ = err
		return string(t), kind, bytes.Equal(d, raw)
	default:
		if len(other) > 0 {
			o := other[r.Intn(len(other))]
			if o != orig {
				return o, "taken from another item", false
			}
		}
		b[len(b)-1-r.Intn(32)] ^= 0x80
		kind = "bit flip in MAC"
	}
	return b64(b), kind, bytes.Equal(b, raw)
}

func region(n, l int) string {
	switch {
	case n < 8:
		return "header"
	case n < 16:
		return "length"
	case n < 32:
		return "IV"
	case n >= l-32:
		return "MAC"
	case n >= l-48:
		return "last block"
	}
	return "ciphertext"
}

func lenClass(n int) string {
	switch {
	case n == 0:
		return "nothing"
	case n < 16:
		return "1-15 bytes"
	case n < 32:
		return "16-31 bytes"
	case n < 64:
		return "32-63 bytes"
	}
	return "64+ bytes"
}

// blankOverview and blankDetails change the expectation for an item.
func blankOverview(it *VItem) { it.Title, it.Url = "", "" }
func blankDetails(it *VItem)  { it.Sections, it.Notes = nil, "" }

func runC03(c *Ctx) {
	c.B.get("driver")
	c.B.get("app")
	c.B.get("gui")
	build := func(r *rand.Rand, n int, o genOpts) (*Vault, map[*VItem]string, map[*VItem]bool) {
		o.items = n
		v := genVault(r, "pw", 1+r.Intn(5), o)
		if !o.narrow && n > 0 && r.Intn(5) == 0 { // an item with much text, so that damage can be far inside
			it := v.Items[r.Intn(n)]
			it.Details = append(omap{{"notesPlain", ""}}, it.Details...)
			for k := len(it.Details) - 1; k > 0; k-- {
				if it.Details[k].K == "notesPlain" {
					it.Details = append(it.Details[:k:k], it.Details[k+1:]...)
				}
			}
			it.Notes = strings.Repeat(phrase(r, 10)+"\n", 10+r.Intn(600)) + secretSeq(r)
			it.Details[0].V = it.Notes
			v.seal(r, it)
		}
		kinds := map[*VItem]string{}
		either := map[*VItem]bool{} // authentic content may be shown as well
		var ds, kss []string
		for _, it := range v.Items {
			ds = append(ds, it.D)
			kss = append(kss, it.K)
		}
		for _, it := range v.Items {
			if r.Intn(10) < 4 {
				continue
			}
			var same bool
			var kind, blob string
			authentic := *it
			switch r.Intn(3) {
			case 0:
				blob = "overview"
				it.O, kind, same = alter(r, it.O, []string{it.D, it.K})
				blankOverview(it)
			case 1:
				blob = "details"
				it.D, kind, same = alter(r, it.D, append([]string{it.O, it.K}, ds...))
				blankDetails(it)
			case 2:
				blob = "keys"
				it.K, kind, same = alter(r, it.K, append([]string{it.O, it.D}, kss...))
				blankDetails(it)
			}
			if same {
				either[it] = true
				_ = authentic
			}
			kinds[it] = blob + ": " + kind
			v.raw(it)
		}
		return v, kinds, either
	}
	c.each("items", 0, c.n(500, 6000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		n := 30
		if r.Intn(4) == 0 {
			n = 1 + r.Intn(3)
		}
		v, kinds, either := build(r, n, genOpts{trashRate: 20, noUnknown: true})
		v.write(r, w.vault)
		w.own()
		d, u := w.unlockDriver(v.Password)
		defer d.close()
		if u.Err != "" || d.bad(u) != "" {
			var ks []string
			for _, k := range kinds {
				ks = append(ks, k)
			}
			c.violation(i, "a vault with damaged items cannot be opened: "+u.Err+d.bad(u), map[string]any{"damages": ks})
			return
		}
		for _, it := range v.Items {
			if either[it] {
				continue
			}
			q := d.call(map[string]any{"op": "get", "uid": it.UID, "trashed": it.Trashed})
			if b := d.bad(q); b != "" {
				c.violation(i, b, itemWitness(it))
				return
			}
			wit := map[string]any{"damage": kinds[it], "item": itemWitness(it), "got": q.Item}
			if q.Item == nil {
				c.violation(i, fmt.Sprintf("item %s (damage: %q) has vanished", it.UID, kinds[it]), wit)
				return
			}
			if x := diffItem(it, q.Item); x != "" {
				if kinds[it] == "" {
					c.violation(i, "an intact item is affected by another item's damage: "+x, wit)
				} else {
					c.violation(i, "damaged data is shown ("+kinds[it]+"): "+x, wit)
				}
				return
			}
			if kinds[it] != "" {
				c.eval(kinds[it])
				c.count("damaged blobs observed", 1)
			} else {
				c.count("intact neighbours observed", 1)
			}
		}
		for _, tr := range []bool{false, true} { // titles in the listing too
			q := d.call(map[string]any{"op": "list", "trashed": tr})
			n := 0
			for _, li := range q.Items {
				it := v.find(li.Uid)
				if it == nil || !either[it] && it.Title != li.Title {
					c.violation(i, fmt.Sprintf("listing shows %q for item %s", li.Title, li.Uid), itemWitness(it))
					return
				}
				n++
			}
			if n != len(v.sel("", "", tr)) {
				c.violation(i, fmt.Sprintf("listing has %d items instead of %d", n, len(v.sel("", "", tr))), nil)
				return
			}
		}
	})
	c.each("profile", 100000, c.n(250, 3000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 1+r.Intn(5), genOpts{items: 2, noUnknown: true})
		var same bool
		var kind string
		if r.Intn(2) == 0 {
			v.MasterKey, kind, same = alter(r, v.MasterKey, []string{v.OverKey[:len(v.OverKey)-8]})
			kind = "master key: " + kind
		} else {
			v.OverKey, kind, same = alter(r, v.OverKey, []string{v.Items[0].K, v.Items[0].O})
			kind = "overview key: " + kind
		}
		if same {
			return
		}
		v.write(r, w.vault)
		w.own()
		d, u := w.unlockDriver("pw")
		defer d.close()
		for _, p := range []string{"pw", "", "pw2"} {
			if u.Err != "invalid password" || d.bad(u) != "" {
				c.violation(i, fmt.Sprintf("altered profile (%s), password %q: answer %q %s", kind, p, u.Err, d.bad(u)), map[string]any{"damage": kind})
				return
			}
			u = d.call(map[string]any{"op": "unlock", "path": w.vault, "password": p})
		}
		if q := d.call(map[string]any{"op": "list"}); len(q.Items) > 0 {
			c.violation(i, "items listed from a vault with altered profile", map[string]any{"damage": kind})
			return
		}
		c.eval(kind)
		c.count("altered profile keys rejected", 1)
	})
	c.each("cli", 200000, c.n(60, 600), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v, kinds, either := build(r, 6, genOpts{trashRate: 0, noUnknown: true})
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		for k := 0; k < 2; k++ {
			it := v.Items[r.Intn(len(v.Items))]
			if either[it] {
				continue
			}
			cmd := []string{"details", "overview"}[r.Intn(2)]
			o := w.opts(cmd, it.UID)
			o.steps = []step{pw("pw")}
			res := c.run(o)
			got := viewLines(afterPrompt(res.Out))
			if res.Code != 0 || !eqLines(got, it.view(cmd == "overview")) {
				c.violation(i, fmt.Sprintf("'%s' of an item (damage: %q) shows something else: %s", cmd, kinds[it], lineDiff(got, it.view(cmd == "overview"))),
					map[string]any{"run": res.brief(), "item": itemWitness(it)})
				return
			}
			c.eval("cli " + kinds[it])
			c.count("command line views", 1)
		}
		o := w.opts("list")
		o.steps = []step{pw("pw")}
		if res := c.run(o); res.Code != 0 || strings.Count(res.Out, "║") < 5*len(v.Items) {
			c.violation(i, "'list' fails on a vault with damaged items", res.brief())
		}
	})
	c.each("gui", 300000, c.n(16, 150), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v, _, either := build(r, 8, genOpts{trashRate: 10, noUnknown: true, narrow: true, uniqueTitles: true})
		blanks := 0
		for _, it := range v.Items {
			if it.Title == "" {
				blanks++
			}
		}
		if len(either) > 0 || blanks > 1 { // order of equal titles is open
			return
		}
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		msg, wit, n := guiReadAll(c, w, v, r)
		c.count("GUI details read", n)
		if msg != "" {
			c.violation(i, "GUI on a vault with damaged items: "+msg, wit)
			return
		}
		c.eval("gui" + vaultSig(v))
	}) // authentic ciphertexts that belong to another item of the same vault; only the record's own HMAC tells
	c.each("exchanged", 400000, c.n(60, 900), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 1+r.Intn(5), genOpts{items: 4 + r.Intn(8), trashRate: 20, noUnknown: true, uniqueTitles: true})
		a, b := v.Items[0], v.Items[1]
		kind := []string{"overview of another item", "details and keys of another item", "all of another item"}[r.Intn(3)]
		if kind != "details and keys of another item" {
			a.O, a.Title, a.Url = b.O, b.Title, b.Url
		}
		if kind != "overview of another item" {
			a.D, a.K, a.Notes, a.Sections = b.D, b.K, b.Notes, b.Sections
		}
		for n, e := range a.Raw { // the record keeps its own HMAC
			switch e.K {
			case "o":
				a.Raw[n].V = a.O
			case "d":
				a.Raw[n].V = a.D
			case "k":
				a.Raw[n].V = a.K
			}
		}
		v.write(r, w.vault)
		w.own()
		d, u := w.unlockDriver(v.Password)
		defer d.close()
		if u.Err != "" || d.bad(u) != "" {
			c.violation(i, "a vault with exchanged ciphertexts ("+kind+") cannot be opened: "+u.Err+d.bad(u), nil)
			return
		}
		for _, it := range v.Items {
			q := d.call(map[string]any{"op": "get", "uid": it.UID, "trashed": it.Trashed})
			if m := d.bad(q); m != "" {
				c.violation(i, m, itemWitness(it))
				return
			}
			wit := map[string]any{"exchange": kind, "item": itemWitness(it), "got": q.Item}
			if q.Item == nil {
				c.violation(i, fmt.Sprintf("item %s of a vault with exchanged ciphertexts (%s) has vanished", it.UID, kind), wit)
				return
			}
			if it == a {
				blank := *it
				if kind != "details and keys of another item" {
					blankOverview(&blank)
				}
				if kind != "overview of another item" {
					blankDetails(&blank)
				}
				if diffItem(&blank, q.Item) == "" {
					c.count("exchanged parts shown blank", 1)
					continue
				}
				if x := diffItem(it, q.Item); x != "" {
					c.violation(i, "exchanged ciphertexts ("+kind+") are shown neither blank nor as stored: "+x, wit)
					return
				}
				if !c.known("exchanged-record-parts") {
					c.violation(i, "an item shows the "+kind, wit)
					return
				}
				c.count("known finding observed", 1)
				continue
			}
			if x := diffItem(it, q.Item); x != "" {
				c.violation(i, "an intact item is affected by ciphertexts exchanged elsewhere: "+x, wit)
				return
			}
			c.count("intact neighbours observed", 1)
		}
		c.eval("exchanged " + kind + vaultSig(v))
	})
}
