package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C14"] = check{
		level: "runtime monitoring of extraction of randomised hostile and well-formed archives: file-operation monitor plus before/after snapshots of the surrounding tree",
		rule:  "a case is one archive extracted by the real extractor (through the facade driver, or inside a whole update run); distinct = distinct archives (entry names, types and links)",
		run:   runC14,
	}
}

func c14hostile(r *rand.Rand, w *world, dst string) tent {
	body := []byte(fmt.Sprintf("escaped %d", r.Intn(1000)))
	base := filepath.Base(dst)
	up := strings.Repeat("../", 1+r.Intn(4))
	names := []string{
		"../x", "../out/x", "../out/victim", up + "x", "a/../../x", "./../x", "..//x", "../" + base + "sibling", "../" + base + "sibling/x", "../" + base + "-evil", "../" + base + "/../x",
		w.dir + "/out/victim", w.dir + "/out/new", "//" + w.dir + "/out/x", "/tmp/vp-escape-" + base, "..", ".", "", "/", "../", "../out", "./", "foo/../../out/victim", "x/../../" + base + "x",
		"../" + base[:len(base)-1], "../" + base + ".", "link/x", "link/../../x", "link", "dir/x", "1pass/../../x", "/../x", "/..", "../../" + filepath.Base(w.dir) + "/out/victim", "sub/../..",
		"..\x2fx", ". ./x", " ../x", "../ x",
	}
	n := names[r.Intn(len(names))]
	switch r.Intn(8) {
	case 0:
		return tent{Name: "link", Type: tar.TypeSymlink, Link: []string{"../out", w.dir + "/out", "../out/victim", "..", "/tmp"}[r.Intn(5)]}
	case 1:
		return tent{Name: "link", Type: tar.TypeLink, Link: []string{"../out/victim", w.dir + "/out/victim", "../../x"}[r.Intn(3)]}
	case 2:
		n = strings.TrimRight(n, "/")
		return tent{Name: n, Type: []byte{tar.TypeDir, tar.TypeSymlink, tar.TypeLink, tar.TypeChar, tar.TypeBlock, tar.TypeFifo}[r.Intn(6)], Link: "../out/victim"}
	case 3:
		return tent{Name: []string{"1pass", "dir", "link"}[r.Intn(3)], Type: []byte{tar.TypeDir, tar.TypeSymlink, tar.TypeFifo}[r.Intn(3)], Link: "../out"}
	}
	if strings.HasSuffix(n, "/") {
		return tent{Name: n, Type: tar.TypeDir}
	}
	return tent{Name: n, Body: body}
}

var c14good = []string{"1pass", "LICENSE", "README.md", "..foo", "...", "a..b", "foo..", "-x", "with space", "żółć", "漢字", "back\\slash", "..\\x", "x:y", "~", "$HOME", "a*b", "new\tline",
	strings.Repeat("n", 90), strings.Repeat("L", 120), strings.Repeat("ü", 110), ".hidden", "checksum.md5", "1pass.tar.gz", "%s"}

func runC14(c *Ctx) {
	c.B.get("driver")
	c.B.get("app")
	lay := func(r *rand.Rand) (*world, string) {
		w := c.world("vault")
		dst := filepath.Join(w.dir, []string{"ex", "target dir", "d[1]", "extracted", "x.y"}[r.Intn(5)])
		os.MkdirAll(dst, 0755)
		os.MkdirAll(filepath.Join(w.dir, "out"), 0755)
		os.MkdirAll(dst+"sibling", 0755)
		mustWrite(filepath.Join(w.dir, "out", "victim"), []byte("precious"))
		mustWrite(filepath.Join(dst+"sibling", "victim"), []byte("precious"))
		return w, dst
	}
	outside := func(w *world, dst string) map[string]string {
		s := snapshot(w.dir)
		rel, _ := filepath.Rel(w.dir, dst)
		for k := range s {
			if k == rel || strings.HasPrefix(k, rel+"/") {
				delete(s, k)
			}
		}
		return s
	}
	show := func(es []tent) []string {
		var o []string
		for _, e := range es {
			o = append(o, fmt.Sprintf("%q type %q link %q %d bytes", e.Name, rune(e.Type), e.Link, len(e.Body)))
		}
		return o
	}
	c.each("hostile", 0, c.n(900, 20000), 0, func(i int, r *rand.Rand) {
		w, dst := lay(r)
		defer w.done()
		var es []tent
		for k := 1 + r.Intn(6); k > 0; k-- {
			if r.Intn(3) == 0 {
				es = append(es, tent{Name: c14good[r.Intn(len(c14good))], Body: []byte("good")})
			} else {
				es = append(es, c14hostile(r, w, dst))
			}
		}
		if i%4 == 0 { // the classical pair: a link first, then a file through it
			es = []tent{{Name: "link", Type: []byte{tar.TypeSymlink, tar.TypeLink}[r.Intn(2)], Link: []string{"../out", w.dir + "/out", "../out/victim"}[r.Intn(3)]},
				{Name: []string{"link/victim", "link", "link/x"}[r.Intn(3)], Body: []byte("escaped")}}
		}
		src := filepath.Join(w.dir, "a.tar.gz")
		mustWrite(src, gz(tarBytes(es, []tar.Format{tar.FormatUnknown, tar.FormatGNU, tar.FormatPAX}[r.Intn(3)]), 1))
		w.own()
		before := outside(w, dst)
		d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
		defer d.close()
		q := d.call(map[string]any{"op": "extract", "src": src, "dst": dst})
		var bad []string
		for _, e := range d.events() {
			if (e.Dec == "mut" || e.Dec == "DENY") && !under(e.Path, dst) {
				bad = append(bad, fmt.Sprintf("%s %s %s", e.Op, e.Path, e.Dec))
			}
		}
		bad = append(bad, diffSnap(before, outside(w, dst))...)
		wit := map[string]any{"entries": show(es), "error": q.Err, "outside": bad, "destination": dst}
		if len(bad) > 0 {
			c.violation(i, "extraction reaches outside its directory: "+bad[0], wit)
			return
		}
		if b := d.bad(q); b != "" {
			c.violation(i, "extraction crashed: "+b, wit)
			return
		}
		if q.Err != "" {
			c.count("archives refused", 1)
		} else {
			c.count("archives kept inside", 1)
		}
		c.count("entries", len(es))
		c.eval(strings.Join(show(es), "|"))
		if i%301 == 1 {
			c.sample(wit)
		}
	})
	c.each("flat", 100000, c.n(300, 5000), 0, func(i int, r *rand.Rand) {
		w, dst := lay(r)
		defer w.done()
		var es []tent
		want := map[string][]byte{}
		if r.Intn(3) == 0 {
			es = append(es, tent{Name: "./", Type: tar.TypeDir})
		}
		for k := r.Intn(7); k >= 0; k-- {
			n := c14good[r.Intn(len(c14good))]
			if _, dup := want[n]; dup {
				continue
			}
			b := make([]byte, []int{0, 1, 511, 512, 513, 32768, 100001, r.Intn(5000)}[r.Intn(8)])
			r.Read(b)
			if r.Intn(3) == 0 {
				b = bytes.Repeat([]byte{0}, len(b))
			}
			if i%40 == 7 && len(want) == 0 { // as large as real programs are, and larger
				b = bytes.Repeat([]byte("0123456789abcdef"), (4<<20)>>uint(r.Intn(4)))
			}
			want[n] = b
			name := n
			if r.Intn(4) == 0 {
				name = "./" + n
			}
			es = append(es, tent{Name: name, Body: b, Mode: []int64{0755, 0644, 0600, 0444, 0777}[r.Intn(5)]})
		}
		src := filepath.Join(w.dir, "a.tar.gz")
		data := gz(tarBytes(es, []tar.Format{tar.FormatUnknown, tar.FormatGNU, tar.FormatPAX}[r.Intn(3)]), r.Intn(10))
		if r.Intn(5) == 0 && len(data) > 0 { // gzip files may consist of several members
			raw := tarBytes(es, tar.FormatUnknown)
			k := r.Intn(len(raw))
			data = append(gz(raw[:k], 1), gz(raw[k:], 9)...)
		}
		mustWrite(src, data)
		pre := r.Intn(4) == 0
		if pre { // overwriting what is there
			for n := range want {
				old := make([]byte, r.Intn(200000))
				mustWrite(filepath.Join(dst, n), old)
			}
		}
		dstArg := dst
		if r.Intn(4) == 0 {
			dstArg += "/"
		}
		w.own()
		before := outside(w, dst)
		d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
		defer d.close()
		q := d.call(map[string]any{"op": "extract", "src": src, "dst": dstArg})
		wit := map[string]any{"entries": show(es), "error": q.Err, "destination": dstArg, "overwriting": pre}
		if d.bad(q) != "" || q.Err != "" {
			c.violation(i, "a well-formed flat archive is refused: "+q.Err+d.bad(q), wit)
			return
		}
		if bad := diffSnap(before, outside(w, dst)); len(bad) > 0 {
			c.violation(i, "extraction reaches outside its directory: "+bad[0], wit)
			return
		}
		got := map[string]bool{}
		ents, _ := os.ReadDir(dst)
		for _, e := range ents {
			got[e.Name()] = true
		}
		for n, b := range want {
			f, err := os.ReadFile(filepath.Join(dst, n))
			if err != nil || !bytes.Equal(f, b) {
				c.violation(i, fmt.Sprintf("entry %q was not unpacked exactly (%d bytes instead of %d, %v)", n, len(f), len(b), err), wit)
				return
			}
			delete(got, n)
			c.count("files compared", 1)
		}
		if len(got) > 0 {
			c.violation(i, fmt.Sprintf("files that are not in the archive: %v", got), wit)
			return
		}
		c.eval("flat" + strings.Join(show(es), "|"))
	})
	// whole updates with hostile archives: nothing but the cache and the executable may change
	c.each("update", 200000, c.n(80, 1200), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		w.config("timeout: 20\n")
		cache := filepath.Join(w.home, "cache-1pass")
		os.MkdirAll(filepath.Join(w.home, "out"), 0755)
		mustWrite(filepath.Join(w.home, "out", "victim"), []byte("precious"))
		p := newPub(r, "2.0.0", 1000)
		es := []tent{{Name: "1pass", Body: p.bin}}
		for k := 1 + r.Intn(4); k > 0; k-- {
			h := c14hostile(r, w, cache)
			if h.Link != "" && r.Intn(2) == 0 {
				h.Link = "../../out"
			}
			es = append(es, h)
		}
		r.Shuffle(len(es), func(a, b int) { es[a], es[b] = es[b], es[a] })
		p.archive = tgz(es...)
		in := w.install(0755)
		w.own()
		h := c.pubHub(p)
		defer h.close()
		before := outside(w, cache)
		res := c.run(w.updateOpts(in, h, "y\n"))
		var bad []string
		for _, d := range diffSnap(before, outside(w, cache)) {
			if !strings.Contains(d, ": bin/1pass") && !strings.Contains(d, ".config/1pass/lastcheck") {
				bad = append(bad, d)
			}
		}
		for _, e := range res.Events {
			if (e.Dec == "mut" || e.Dec == "DENY") && !under(e.Path, cache) && e.Path != in.exe && !under(e.Path, w.cfg) {
				bad = append(bad, fmt.Sprintf("%s %s %s", e.Op, e.Path, e.Dec))
			}
		}
		if len(bad) > 0 || res.crashed() {
			c.violation(i, fmt.Sprintf("unpacking a downloaded archive changed other files: %v", bad), map[string]any{"entries": show(es), "run": res.brief(), "outside": bad})
			return
		}
		c.count("updates with hostile archives", 1)
		c.eval("update" + strings.Join(show(es), "|"))
	})
}

func under(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }
