package main

// The power fails: what was written but not forced to the disk may be lost, although later operations are not.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"gopkg.in/yaml.v2"
)

func init() {
	checks["C28"] = check{
		level: "runtime monitoring of every file operation of saves and updates; an offline checker derives from the recorded log the disk contents a power failure can leave and judges them, and a sample of them is built and given to the real program",
		rule:  "a case is one save or update, or one later run on a disk that a power failure left; distinct = distinct (operation, start, recorded operations, state of the disk)",
		run:   runC28,
	}
}

// pino is a file of the modelled disk with the contents that it can have after a power failure.
type pino struct {
	data   []byte
	hist   [][]byte // since it was last forced to the disk
	synced bool     // written through
}

// disk is replayed from a log. The operations on names reach the disk in their order, contents do not.
type disk struct {
	names  map[string]*pino
	places []map[string]*pino // the names after each operation on them
	from   string
	odd    string
	steps  int
}

func newDisk(files map[string][]byte) *disk {
	d := &disk{names: map[string]*pino{}}
	for p, b := range files {
		d.names[p] = &pino{data: b, hist: [][]byte{b}}
	}
	d.mark()
	return d
}

func (d *disk) mark() {
	m := map[string]*pino{}
	for k, v := range d.names {
		m[k] = v
	}
	d.places = append(d.places, m)
}

func (d *disk) apply(e event) {
	if e.Dec != "mut" {
		return
	}
	d.steps++
	f := d.names[e.Path]
	switch e.Op {
	case "openw":
		flag, _ := strconv.Atoi(e.Extra)
		if f == nil {
			if flag&os.O_CREATE == 0 {
				return
			}
			f = &pino{hist: [][]byte{nil}}
			d.names[e.Path] = f
			d.mark()
		}
		if flag&os.O_TRUNC != 0 && len(f.data) > 0 {
			f.data = nil
			f.hist = append(f.hist, nil)
		}
		f.synced = flag&os.O_SYNC != 0
	case "write":
		if f == nil {
			return
		}
		x := e.Extra[strings.IndexByte(e.Extra, ':')+1:]
		b, err := hex.DecodeString(x)
		if err != nil {
			d.odd = "log: " + err.Error()
			return
		}
		f.data = append(f.data[:len(f.data):len(f.data)], b...)
		f.hist = append(f.hist, f.data)
		if f.synced {
			f.hist = f.hist[len(f.hist)-1:]
		}
	case "sync":
		if f != nil {
			f.hist = [][]byte{f.data}
		}
	case "rename-from", "link-from":
		d.from = e.Path
	case "rename-to", "link-to":
		if src := d.names[d.from]; src != nil {
			d.names[e.Path] = src
			if e.Op == "rename-to" {
				delete(d.names, d.from)
			}
			d.mark()
		}
	case "remove":
		if f != nil {
			delete(d.names, e.Path)
			d.mark()
		}
	case "removeall":
		n := len(d.names)
		for p := range d.names {
			if under(p, e.Path) {
				delete(d.names, p)
			}
		}
		if len(d.names) != n {
			d.mark()
		}
	case "writeat", "truncate", "symlink":
		d.odd = e.Op
	}
}

// torn says how a power failure now can leave the target neither old nor new.
func (d *disk) torn(target string, old, new []byte) (string, int) {
	n := 0
	seen := map[*pino]bool{}
	for _, m := range d.places {
		f := m[target]
		if f == nil {
			if old != nil {
				return "is missing", n
			}
			continue
		}
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, h := range f.hist {
			n++
			if !bytes.Equal(h, old) && !bytes.Equal(h, new) || len(h) == 0 && old == nil {
				return fmt.Sprintf("has %d bytes (old %d, new %d)", len(h), len(old), len(new)), n
			}
		}
	}
	return "", n
}

// fall picks one of the states that a power failure can leave.
func (d *disk) fall(r *rand.Rand) map[string][]byte {
	m := d.places[r.Intn(len(d.places))]
	var ps []string
	for p := range m {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	out := map[string][]byte{}
	for _, p := range ps {
		h := m[p].hist
		b := h[r.Intn(len(h))]
		if len(h) > 1 && r.Intn(3) == 0 { // and less than a whole write
			b = b[:r.Intn(len(b)+1)]
		}
		out[p] = b
	}
	return out
}

func filesIn(dirs ...string) map[string][]byte {
	m := map[string][]byte{}
	for _, d := range dirs {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				m[p], _ = os.ReadFile(p)
			}
			return nil
		})
	}
	return m
}

func runC28(c *Ctx) {
	c.B.get("app")
	c.each("power", 0, c.n(240, 8000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		update := r.Intn(3) == 0
		target := filepath.Join(w.cfg, "1pass.yml")
		start := ""
		text := "opvault: /x\ntimeout: 20\nupdate-notification: false\nupdate-period: 1\n"
		switch k := r.Intn(6); {
		case update || k < 2:
			start = "settings"
			w.config(text)
		case k == 2:
			start = "no settings"
		case k == 3:
			start = "empty settings"
			w.config("")
		case k == 4:
			start = "large settings"
			w.config(text + "more: " + strings.Repeat("x", 20000+r.Intn(200000)) + "\n")
		default:
			start = "linked settings"
			os.MkdirAll(w.cfg, 0755)
			target = filepath.Join(w.dir, "elsewhere", "settings.yml")
			os.MkdirAll(filepath.Dir(target), 0755)
			mustWrite(target, []byte(text))
			os.Symlink(target, filepath.Join(w.cfg, "1pass.yml"))
		}
		var o runOpts
		var in *inst
		var p *pub
		answers := fmt.Sprintf("y\n/vault%d\nn\n%d\n%d\n", r.Intn(1000), 1+r.Intn(30), r.Intn(300))
		if update {
			start = "update"
			in = w.install([]os.FileMode{0755, 0700, 0555}[r.Intn(3)])
			target = in.exe
			p = newPub(r, "2.0.0", []int{300, 40000, 300000}[r.Intn(3)])
			h := c.pubHub(p)
			defer h.close()
			o = w.updateOpts(in, h, "y\n")
		} else {
			o = w.opts("configure")
			o.pipe = true
			o.steps = []step{{send: answers}}
			if start == "no settings" && r.Intn(2) == 0 {
				o.args = []string{"list", "-v", "/nonexistent"}
			}
		}
		w.own()
		dirs := []string{w.cfg, filepath.Join(w.dir, "elsewhere"), filepath.Join(w.dir, "bin"), filepath.Join(w.home, "cache-1pass")}
		before := filesIn(dirs...)
		o.logData = true
		res := c.run(o)
		after := filesIn(dirs...)
		old, new := before[target], after[target]
		wit := map[string]any{"start": start, "run": res.brief(), "operations": evStrings(res.Events, func(e event) bool { return e.Dec == "mut" && e.Op != "write" })}
		if bytes.Equal(old, new) || new == nil || res.Code != 0 && o.args[0] != "list" {
			c.violation(i, "an undisturbed "+o.args[0]+" does not do its work", wit)
			return
		}
		d := newDisk(before)
		type state struct {
			at    int
			files map[string][]byte
		}
		var states []state
		bad, looked := "", 0
		for k, e := range res.Events {
			d.apply(e)
			if e.Dec != "mut" || bad != "" {
				continue
			}
			x, n := d.torn(target, old, new)
			looked += n
			if x != "" {
				bad = fmt.Sprintf("after '%s %s' a power failure can leave a file that %s", e.Op, strings.TrimPrefix(e.Path, w.dir), x)
			}
			if r.Intn(8) == 0 || strings.HasPrefix(e.Op, "rename") {
				states = append(states, state{k, d.fall(r)})
			}
		}
		if f := d.names[target]; d.odd != "" || f == nil || !bytes.Equal(f.data, new) { // written in a way that the log does not tell
			c.count("runs that the log does not explain", 1)
			return
		}
		if bad != "" {
			c.violation(i, start+": "+bad, wit)
			return
		}
		c.count("operations on files observed", d.steps)
		c.count("possible contents judged", looked)
		c.count("runs judged: "+start, 1)
		c.eval(fmt.Sprint(start, d.steps, len(old), len(new)))
		// the program gets along with what is left
		if len(states) == 0 {
			return
		}
		s := states[r.Intn(len(states))]
		for q := range filesIn(dirs...) {
			os.Remove(q)
		}
		os.RemoveAll(filepath.Join(w.home, "cache-1pass"))
		for q, b := range s.files {
			os.MkdirAll(filepath.Dir(q), 0755)
			syscall.ForkLock.RLock() // no child may hold it open for writing
			mustWrite(q, b)
			syscall.ForkLock.RUnlock()
		}
		if in != nil {
			os.Chmod(in.exe, in.mode)
		}
		w.own()
		if in != nil {
			os.Chmod(filepath.Join(w.home, "cache-1pass"), 0700)
		}
		var names []string
		for q, b := range s.files {
			names = append(names, fmt.Sprintf("%s (%d bytes)", strings.TrimPrefix(q, w.dir), len(b)))
		}
		sort.Strings(names)
		wit["disk after the power failure"] = names
		if update {
			if !bytes.Equal(s.files[in.exe], old) { // the new program is a stand-in
				c.count("disks with the new program", 1)
				c.eval(fmt.Sprint("disk", names))
				return
			}
			h := c.pubHub(p)
			defer h.close()
			res = c.run(w.updateOpts(in, h, "y\n"))
			wit["later run"] = res.brief()
			if st := in.state(p.bin); st != "new" || res.Code != 0 {
				c.violation(i, "an update after a power failure during an update does not succeed: "+st, wit)
				return
			}
		} else {
			o = w.opts("configure")
			o.pipe = true
			o.steps = []step{{send: "n\ny\n7\n70\n"}}
			res = c.run(o)
			wit["later run"] = res.brief()
			var got map[string]any
			b, _ := os.ReadFile(target)
			if err := yaml.Unmarshal(b, &got); err != nil || res.Code != 0 || got["timeout"] != 7 || got["update-period"] != 70 || got["update-notification"] != true {
				c.violation(i, "settings cannot be saved after a power failure during a save", wit)
				return
			}
			vs := map[string]any{}
			yaml.Unmarshal(s.files[target], &vs)
			if v := vs["opvault"]; v != nil && got["opvault"] != v {
				c.violation(i, "a save after a power failure loses settings", wit)
				return
			}
		}
		c.count("later runs on a disk left by a power failure", 1)
		c.eval(fmt.Sprint("disk", names))
		if i%23 == 0 {
			c.sample(wit)
		}
	})
}
