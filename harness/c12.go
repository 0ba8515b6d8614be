package main

import (
	"archive/tar"
	"bytes"
	"crypto/sha256"
	"crypto/tls"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	checks["C12"] = check{
		level: "runtime monitoring of real update runs against a fake release server over a scenario matrix, judged by the bytes of the executable",
		rule:  "a case is one run of 'update' by an installed copy of the program (version published x archive x checksum x answer x connection behaviour x executable mode); distinct = distinct scenario tuples",
		run:   runC12,
	}
}

type c12axis struct {
	name string
	ok   bool
	mod  func(r *rand.Rand, p *pub)
}

var c12versions = []c12axis{
	{"1.3.2", true, nil}, {"2.0.0", true, nil}, {"1.10.0", true, nil}, {"v1.4.0", true, nil}, {"1.3.1.1", true, nil}, {"10.0", true, nil}, {"2", true, nil},
	{"1.3.1", false, nil}, {"1.3.0", false, nil}, {"0.99.99", false, nil}, {"1.3", false, nil}, {"v1.3.1", false, nil}, {"", false, nil}, {"latest", false, nil}, {"1.3.1.0", false, nil},
	{"1.2.10", false, nil}, {"01.03.01", false, nil},
}

func flip(b []byte, i int) []byte {
	o := append([]byte{}, b...)
	o[i] ^= 1
	return o
}

var c12archives = []c12axis{
	{"plain", true, func(r *rand.Rand, p *pub) {}},
	{"program only", true, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "1pass", Body: p.bin}) }},
	{"extra files", true, func(r *rand.Rand, p *pub) {
		p.archive = tgz(tent{Name: "README.md", Body: []byte("x")}, tent{Name: "1pass", Body: p.bin}, tent{Name: "1pass.sig", Body: []byte("y")})
	}},
	{"program stored without execute permission", true, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "1pass", Body: p.bin, Mode: 0644}) }},
	{"dot slash names", true, func(r *rand.Rand, p *pub) {
		p.archive = tgz(tent{Name: "./", Type: tar.TypeDir}, tent{Name: "./1pass", Body: p.bin})
	}},
	{"large", true, func(r *rand.Rand, p *pub) {
		p.bin = newProgram(r, p.rel.Tag, 3<<20)
		p.archive = tgz(tent{Name: "1pass", Body: p.bin})
		p.sum = []byte(fmt.Sprintf("%x  1pass\n", md5sum(p.bin)))
	}},
	{"very large", true, func(r *rand.Rand, p *pub) {
		p.bin = append(newProgram(r, p.rel.Tag, 1<<20), bytes.Repeat([]byte("# padding\n"), 1<<20+r.Intn(2<<20))...)
		p.archive = tgz(tent{Name: "1pass", Body: p.bin})
		p.sum = []byte(fmt.Sprintf("%x  1pass\n", md5sum(p.bin)))
	}},
	{"different program", false, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "1pass", Body: flip(p.bin, len(p.bin)/2)}) }},
	{"last byte differs", false, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "1pass", Body: flip(p.bin, len(p.bin)-1)}) }},
	{"any byte differs", false, func(r *rand.Rand, p *pub) {
		p.archive = tgz(tent{Name: "1pass", Body: flip(p.bin, r.Intn(len(p.bin)))})
	}},
	{"large and the end differs", false, func(r *rand.Rand, p *pub) {
		p.bin = newProgram(r, p.rel.Tag, 5<<20)
		p.archive = tgz(tent{Name: "1pass", Body: flip(p.bin, len(p.bin)-1-r.Intn(100000))})
		p.sum = []byte(fmt.Sprintf("%x  1pass\n", md5sum(p.bin)))
	}},
	{"large and cut", false, func(r *rand.Rand, p *pub) {
		p.bin = newProgram(r, p.rel.Tag, 4<<20)
		p.archive = tgz(tent{Name: "1pass", Body: p.bin[:4<<20]})
		p.sum = []byte(fmt.Sprintf("%x  1pass\n", md5sum(p.bin)))
	}},
	{"in a subdirectory", false, func(r *rand.Rand, p *pub) {
		p.archive = tgz(tent{Name: "bin", Type: tar.TypeDir}, tent{Name: "bin/1pass", Body: p.bin})
	}},
	{"good program under another name", false, func(r *rand.Rand, p *pub) {
		p.archive = tgz(tent{Name: "1pass", Body: flip(p.bin, 50)}, tent{Name: "1pass.new", Body: p.bin})
	}},
	{"program is a link", false, func(r *rand.Rand, p *pub) {
		p.archive = tgz(tent{Name: "real", Body: p.bin}, tent{Name: "1pass", Type: tar.TypeSymlink, Link: "real"})
	}},
	{"program one byte longer", false, func(r *rand.Rand, p *pub) {
		p.archive = tgz(tent{Name: "1pass", Body: append(append([]byte{}, p.bin...), 0)})
	}},
	{"program cut short", false, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "1pass", Body: p.bin[:len(p.bin)-1]}) }},
	{"empty program", false, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "1pass", Body: nil}) }},
	{"without the program", false, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "README", Body: p.bin}) }},
	{"empty archive", false, func(r *rand.Rand, p *pub) { p.archive = tgz() }},
	{"program under another case", false, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "1Pass", Body: p.bin}) }},
	{"program is a directory", false, func(r *rand.Rand, p *pub) { p.archive = tgz(tent{Name: "1pass", Type: tar.TypeDir}) }},
	{"own checksum in the archive", false, func(r *rand.Rand, p *pub) {
		evil := flip(p.bin, 40)
		p.archive = tgz(tent{Name: "1pass", Body: evil}, tent{Name: "checksum.md5", Body: []byte(fmt.Sprintf("%x  1pass\n", md5sum(evil)))})
	}},
	{"own checksum in the archive above", false, func(r *rand.Rand, p *pub) {
		evil := flip(p.bin, 40)
		p.archive = tgz(tent{Name: "1pass", Body: evil}, tent{Name: "../checksum.md5", Body: []byte(fmt.Sprintf("%x  1pass\n", md5sum(evil)))})
	}},
	{"not an archive", false, func(r *rand.Rand, p *pub) { p.archive = p.bin }},
	{"no bytes", false, func(r *rand.Rand, p *pub) { p.archive = nil }},
	{"error page", false, func(r *rand.Rand, p *pub) { p.over["archive"] = reply{status: 404, body: []byte("Not Found")} }},
	{"download cut", false, func(r *rand.Rand, p *pub) {
		p.over["archive"] = reply{mode: "truncate", body: p.archive, cut: r.Intn(len(p.archive))}
	}},
	{"archive file cut", false, func(r *rand.Rand, p *pub) { p.archive = p.archive[:r.Intn(len(p.archive)*9/10)] }},
	{"connection reset", false, func(r *rand.Rand, p *pub) { p.over["archive"] = reply{mode: "reset"} }},
	{"garbage reply", false, func(r *rand.Rand, p *pub) { p.over["archive"] = reply{mode: "garbage"} }},
	{"damaged bytes", false, func(r *rand.Rand, p *pub) {
		p.archive = flip(p.archive, len(p.archive)/2+r.Intn(len(p.archive)/3))
	}},
	{"asset not published", false, func(r *rand.Rand, p *pub) { p.rel.Assets = p.rel.Assets[1:] }},
}

var c12sums = []c12axis{
	{"plain", true, func(r *rand.Rand, p *pub) {}},
	{"without name", true, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("%x\n", md5sum(p.bin))) }},
	{"without newline", true, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("%x  1pass", md5sum(p.bin))) }},
	{"binary mode", true, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("%x *1pass\n", md5sum(p.bin))) }},
	{"blanks around", true, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("\n  %x  1pass\r\n\n", md5sum(p.bin))) }},
	{"of something else", false, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("%x  1pass\n", md5sum([]byte("else")))) }},
	{"of nothing", false, func(r *rand.Rand, p *pub) { p.sum = []byte("d41d8cd98f00b204e9800998ecf8427e  1pass\n") }},
	{"of the archive", false, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("%x  1pass\n", md5sum(p.archive))) }},
	{"one digit off", false, func(r *rand.Rand, p *pub) {
		h := []byte(fmt.Sprintf("%x", md5sum(p.bin)))
		i := []int{0, 31, r.Intn(32)}[r.Intn(3)]
		if h[i] == 'a' {
			h[i] = 'b'
		} else {
			h[i] = 'a'
		}
		p.sum = append(h, []byte("  1pass\n")...)
	}},
	{"prefix only", false, func(r *rand.Rand, p *pub) {
		p.sum = []byte(fmt.Sprintf("%x", md5sum(p.bin))[:1+r.Intn(31)] + "  1pass\n")
	}},
	{"too long", false, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("%x0  1pass\n", md5sum(p.bin))) }},
	{"of something else, named like the right one", false, func(r *rand.Rand, p *pub) {
		p.sum = []byte(fmt.Sprintf("%x  %x\n", md5sum([]byte("else")), md5sum(p.bin)))
	}},
	{"second line right", false, func(r *rand.Rand, p *pub) {
		p.sum = []byte(fmt.Sprintf("%x  1pass\n%x  1pass\n", md5sum([]byte("else")), md5sum(p.bin)))
	}},
	{"suffix only", false, func(r *rand.Rand, p *pub) {
		p.sum = []byte(fmt.Sprintf("%x", md5sum(p.bin))[1+r.Intn(31):] + "  1pass\n")
	}},
	{"empty", false, func(r *rand.Rand, p *pub) { p.sum = nil }},
	{"blank", false, func(r *rand.Rand, p *pub) { p.sum = []byte(" \n\n") }},
	{"zeros", false, func(r *rand.Rand, p *pub) { p.sum = []byte(strings.Repeat("0", 32) + "  1pass\n") }},
	{"SHA-256", false, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("%x  1pass\n", sha256.Sum256(p.bin))) }},
	{"of the old program", false, func(r *rand.Rand, p *pub) { p.sum = []byte(fmt.Sprintf("%x  1pass\n", md5sum(appBytes))) }},
	{"name only", false, func(r *rand.Rand, p *pub) { p.sum = []byte("1pass\n") }},
	{"error page", false, func(r *rand.Rand, p *pub) { p.over["sum"] = reply{status: 404, body: []byte("Not Found")} }},
	{"connection reset", false, func(r *rand.Rand, p *pub) { p.over["sum"] = reply{mode: "reset"} }},
	{"download cut", false, func(r *rand.Rand, p *pub) { p.over["sum"] = reply{mode: "truncate", body: p.sum, cut: r.Intn(32)} }},
	{"asset not published", false, func(r *rand.Rand, p *pub) {
		p.rel.Assets = p.rel.Assets[:len(p.rel.Assets)-1]
	}},
}

var c12answers = []struct {
	send string
	ok   bool
}{{"y\n", true}, {"Y\n", true}, {"y", true}, {"n\n", false}, {"N\n", false}, {"\n", false}, {"", false}, {"q\n", false}, {"yn\n", false}, {"ny\n", false}, {"1\n", false},
	{"n\ny\n", false}, {"\ny\n", false}, {"yy\n", false}, {"y n\n", false}, {"0\n", false}, {"true\n", false}, {"т\n", false}}

// connection behaviours: which connection fails and how; the order of connections is releases, releases, archive, sum.
var c12nets = []struct {
	name string
	ok   bool
}{{"good", true}, {"redirected", true}, {"rogue certificate", false}, {"wrong host", false}, {"expired", false}, {"rogue for downloads", false}, {"wrong host for downloads", false},
	{"rogue at the last connection", false}, {"second release query fails", false}, {"second release query: not newer", false}, {"second release query: none", false}, {"closed", false}, {"not TLS", false}}

func runC12(c *Ctx) {
	c.B.get("app")
	pick := func(r *rand.Rand, n, good int) int { // mostly the good values at the front
		if r.Intn(100) < 62 {
			return r.Intn(good)
		}
		return r.Intn(n)
	}
	modes := []os.FileMode{0755, 0755, 0700, 0775, 0555, 0711}
	c.each("update", 0, c.n(600, 9000), 0, func(i int, r *rand.Rand) {
		// the first cases walk every value of every axis alone
		vi, ai, si, wi, ni := 0, 0, 0, 0, 0
		k := i
		switch {
		case k < len(c12versions):
			vi = k
		case k-len(c12versions) < len(c12archives):
			ai = k - len(c12versions)
		case k-len(c12versions)-len(c12archives) < len(c12sums):
			si = k - len(c12versions) - len(c12archives)
		case k-len(c12versions)-len(c12archives)-len(c12sums) < len(c12answers):
			wi = k - len(c12versions) - len(c12archives) - len(c12sums)
		case k-len(c12versions)-len(c12archives)-len(c12sums)-len(c12answers) < len(c12nets):
			ni = k - len(c12versions) - len(c12archives) - len(c12sums) - len(c12answers)
		default:
			vi, ai, si, wi, ni = pick(r, len(c12versions), 7), pick(r, len(c12archives), 7), pick(r, len(c12sums), 5), pick(r, len(c12answers), 3), pick(r, len(c12nets), 2)
		}
		ver, arc, sum, ans, nt := c12versions[vi], c12archives[ai], c12sums[si], c12answers[wi], c12nets[ni]
		if !arc.ok && strings.HasPrefix(sum.name, "of the archive") || arc.name == "empty program" && sum.name == "of nothing" {
			return // an archive and a checksum that agree by construction
		}
		w := c.world("vault")
		defer w.done()
		if r.Intn(3) > 0 {
			w.config(fmt.Sprintf("opvault: /x\ntimeout: %d\nupdate-notification: %v\nupdate-period: 1\n", []int{8, 10, 12, 15, 20, 21, 25, 29, 30}[r.Intn(9)], r.Intn(2) == 0))
		} else {
			w.config("timeout: 20\n")
		}
		p := newPub(r, ver.name, r.Intn(200000))
		arc.mod(r, p)
		sum.mod(r, p)
		if i%3 > 0 {
			p.dressUp(r)
		}
		p.redirect = nt.name == "redirected" || r.Intn(4) == 0
		switch nt.name {
		case "second release query fails":
			p.over["releases2"] = []reply{{mode: "reset"}, {mode: "garbage"}, {body: []byte("{")}}[r.Intn(3)]
		case "second release query: not newer":
			p.over["releases2"] = reply{body: relJSON(newRel([]string{"1.3.1", "1.0.0"}[r.Intn(2)]))}
		case "second release query: none":
			p.over["releases2"] = reply{body: []byte("[]")}
		}
		slow := i > 150 && i%223 == 0
		if slow { // the limit is for the answer to the query, not for what is downloaded
			w.config("timeout: 8\n")
			if arc.ok {
				p.over["archive"] = reply{mode: "slow", body: p.archive, last: 10 * time.Second}
			}
		}
		h := c.pubHub(p)
		defer h.close()
		kinds := c.pki()
		at := func(from int, cert *tls.Certificate) {
			h.certAt = func(n int) *tls.Certificate {
				if n >= from {
					return cert
				}
				return &kinds.good
			}
		}
		switch nt.name {
		case "rogue certificate":
			h.cert = &kinds.rogue
		case "wrong host":
			h.cert = &kinds.badHost
		case "expired":
			h.cert = &kinds.expired
		case "rogue for downloads":
			at(2, &kinds.rogue)
		case "wrong host for downloads":
			at(2, &kinds.badHost)
		case "rogue at the last connection":
			p.redirect = false
			at(3, &kinds.rogue)
		case "closed":
			h.raw = "close"
		case "not TLS":
			h.raw = "plain"
		}
		mode := modes[r.Intn(len(modes))]
		in := w.install(mode)
		w.own()
		want := ver.ok && arc.ok && sum.ok && ans.ok && nt.ok
		o := w.updateOpts(in, h, ans.send)
		if r.Intn(5) == 0 && strings.HasSuffix(ans.send, "\n") {
			o.pipe = false
			o.steps = []step{{expect: "[y - for yes/n - for no]:", send: ans.send}}
		}
		started := "its path"
		link := ""
		switch r.Intn(6) {
		case 0: // found through PATH, from somewhere else
			started = "its name"
			o.argv0 = "1pass"
			o.env = append(o.env, "PATH="+filepath.Dir(in.exe)+":/usr/bin:/bin")
			if r.Intn(2) == 0 {
				o.dir = filepath.Dir(in.exe)
			}
		case 1: // a link
			started = "a link"
			link = filepath.Join(w.dir, "1pass")
			os.Symlink(in.exe, link)
			o.bin = link
			if r.Intn(2) == 0 {
				o.argv0 = "1pass"
				o.env = append(o.env, "PATH="+w.dir+":/usr/bin:/bin")
			}
		case 2: // a relative path
			started = "a relative path"
			o.dir = w.dir
			o.argv0 = "bin/1pass"
		}
		if slow {
			started += ", slow download"
		}
		res := c.run(o)
		got := in.state(p.bin)
		if t, err := os.Readlink(link); link != "" && (err != nil || t != in.exe) {
			got = "the link the program was started by is gone or leads elsewhere"
		}
		wit := map[string]any{"published": ver.name, "archive": arc.name, "checksum": sum.name, "answer": ans.send, "connection": nt.name, "started by": started, "mode": mode.String(),
			"run": res.brief(), "executable": got, "events": evStrings(res.Events, func(e event) bool { return e.Dec != "ok" && e.Op != "write" })}
		fail := func(what string) { c.violation(i, what, wit) }
		switch {
		case res.crashed() || res.Timeout:
			fail("update crashed or hung")
		case got != "old" && got != "new":
			fail("after the update run " + got)
		case want && got != "new":
			fail("a newer, confirmed release with a matching checksum was not installed")
		case want && (!claimsUpdate(res.Out) || res.Code != 0):
			fail("the update was installed but success was not reported")
		case !want && got == "new" && !bytes.Equal(p.bin, in.old):
			fail("the executable was replaced although it must not be")
		case !want && (claimsUpdate(res.Out) || res.Code == 0):
			fail("success was reported although nothing was to be installed")
		default:
			c.count(fmt.Sprintf("installed=%v", want), 1)
			c.count("started by "+started, 1)
			c.count("file and network events", len(res.Events))
			c.eval(fmt.Sprint(vi, ai, si, wi, ni, mode))
			if i%97 == 3 {
				c.sample(wit)
			}
		}
	})
}
