package main

// Whole-program sessions of every kind, used by the monitors of file effects (C07) and of leaks (C20).

import (
	"archive/tar"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type job struct {
	name      string
	opts      runOpts
	update    bool // the update command
	confirmed bool // and it was answered with yes
	gui       bool
	prompts   bool // a password is typed
	hub       *fakeHub
	vaultOdd  bool
}

var jobKinds = []string{"list", "list filtered", "overview", "details", "details", "list wrong password", "overview wrong password", "details wrong password", "details missing item", "overview missing item",
	"list invalid vault", "details invalid vault", "list unknown category", "categories", "configure", "configure", "version", "help", "command help", "unknown command", "unknown flag", "missing argument", "first run list",
	"first run details", "first run gui", "list with check", "details with check", "list with failing check", "update declined", "update without answer", "update not newer", "update confirmed", "update confirmed",
	"update wrong checksum", "update broken archive", "update hostile archive", "update network failure", "update repeated", "gui", "gui", "gui", "gui with check", "gui invalid vault", "no password"}

// makeJob prepares a session in the world; the vault v lies at w.vault, in is the installed program.
func (w *world) makeJob(r *rand.Rand, kind string, v *Vault, in *inst, wrong string) *job {
	c := w.c
	j := &job{name: kind}
	conf := fmt.Sprintf("opvault: %s\ntimeout: 2\nupdate-notification: %v\nupdate-period: 0\n", yq(w.vault), strings.Contains(kind, "check"))
	args := []string{}
	var steps []step
	pipe := false
	flag := r.Intn(2) == 0
	if flag {
		conf = strings.Replace(conf, yq(w.vault), "'/nonexistent/vault'", 1)
	}
	vf := func(a ...string) []string {
		if flag {
			return append(a, "-v", w.vault)
		}
		return a
	}
	var it *VItem
	if k := v.known(); len(k) > 0 {
		it = k[r.Intn(len(k))]
	}
	item := func(cmd string) []string {
		if it == nil {
			return vf(cmd, "00112233445566778899AABBCCDDEEFF")
		}
		a := vf(cmd, it.UID)
		if it.Trashed {
			a = append(a, "-t")
		}
		return a
	}
	ask := func(password string) {
		steps = append(steps, pw(password))
		j.prompts = true
	}
	pub := newPub(r, "9.9.9", 5000+r.Intn(60000))
	answer := "y\n"
	word := strings.Fields(kind)[0]
	switch kind {
	case "list":
		args = vf("list")
		ask(v.Password)
	case "list filtered":
		args = vf("list", "-c", []string{"login", "Password", "secure note"}[r.Intn(3)], "-n", "a")
		if r.Intn(2) == 0 {
			args = append(args, "-t")
		}
		ask(v.Password)
	case "overview", "details", "details with check":
		args = item(word)
		ask(v.Password)
	case "list wrong password":
		args = vf("list")
		ask(wrong)
	case "overview wrong password", "details wrong password":
		args = item(word)
		ask(wrong)
	case "details missing item", "overview missing item":
		args = vf(word, "FFFFFFFFFFFFFFFF0000000000000000")
		ask(v.Password)
	case "list invalid vault", "details invalid vault":
		bad := []string{filepath.Join(w.dir, "nothing"), filepath.Join(w.dir, "other"), filepath.Join(w.vault, "default")}[r.Intn(3)]
		if word == "details" {
			args = []string{"details", "AA", "-v", bad}
		} else {
			args = []string{"list", "-v", bad}
		}
		pipe = true
	case "list unknown category":
		args = vf("list", "-c", "nonsense")
		ask(v.Password)
	case "list with check", "list with failing check":
		args = vf("list")
		ask(v.Password)
	case "categories":
		args, pipe = []string{"categories"}, true
	case "configure":
		args, pipe = []string{"configure"}, true
		steps = []step{{send: strings.Join(c10lines(r, filepath.Join(w.dir, "some where")), "\n") + "\n"}}
	case "version":
		args, pipe = []string{"version"}, true
	case "help":
		args, pipe = [][]string{{"help"}, {"-h"}, {"--help"}}[r.Intn(3)], true
	case "command help":
		args, pipe = []string{[]string{"list", "details", "overview", "update", "configure", "categories", "version"}[r.Intn(7)], "--help"}, true
	case "unknown command":
		args, pipe = []string{"frobnicate", "x"}, true
	case "unknown flag":
		args, pipe = []string{"list", "--frobnicate"}, true
	case "missing argument":
		args, pipe = []string{[]string{"details", "overview"}[r.Intn(2)]}, true
	case "first run list", "first run details":
		conf = ""
		if r.Intn(3) == 0 {
			conf = "# nothing yet\n"
		}
		flag = false
		if strings.HasSuffix(kind, "details") {
			args = item("details")
		} else {
			args = []string{"list"}
		}
		steps = []step{{expect: "1. Do", send: "y\n" + w.vault + "\nn\n1\n0\n"}}
		ask(v.Password)
	case "no password":
		args, pipe = vf("list"), true
	case "gui", "gui with check", "gui invalid vault":
		j.gui = true
		args = vf()
		if kind == "gui invalid vault" {
			args = []string{"-v", filepath.Join(w.dir, "other")}
		}
	case "first run gui":
		j.gui, conf = true, ""
		args = []string{"-v", w.vault}
	default: // update
		j.update, pipe = true, true
		args = []string{"update"}
		j.confirmed = true
		switch kind {
		case "update declined":
			answer, j.confirmed = []string{"n\n", "\n", "no\n", "maybe\n"}[r.Intn(4)], false
		case "update without answer":
			answer, j.confirmed = "", false
		case "update not newer":
			pub.rel = newRel("0.0.1")
			j.confirmed = false
		case "update wrong checksum":
			pub.sum = []byte("d41d8cd98f00b204e9800998ecf8427e  1pass\n")
		case "update broken archive":
			pub.archive = pub.archive[:r.Intn(len(pub.archive))]
		case "update hostile archive":
			t := []tent{{Name: "1pass", Body: pub.bin}, {Name: "../../../../v/escaped", Body: []byte("x")}, {Name: "../extracted-evil", Body: []byte("x")}, {Name: "../../home/file", Body: []byte("x")},
				{Name: "link", Type: tar.TypeSymlink, Link: w.vault}, {Name: "link/planted", Body: []byte("x")}, {Name: filepath.Join(w.vault, "planted"), Body: []byte("x")}}
			r.Shuffle(len(t), func(a, b int) { t[a], t[b] = t[b], t[a] })
			pub.archive = tgz(t[:2+r.Intn(len(t)-1)]...)
		case "update network failure":
			pub.over[[]string{"archive", "sum", "releases1", "releases2"}[r.Intn(4)]] = reply{mode: []string{"reset", "garbage", "truncate"}[r.Intn(3)], body: []byte("xxxxxxxx"), cut: 3}
		}
		steps = []step{{send: answer}}
		if kind == "update repeated" || r.Intn(2) == 0 {
			seedCache(r, w, r.Intn(6))
		}
	}
	if conf != "" {
		w.config(conf)
	}
	o := w.opts(args...)
	if in != nil {
		o.bin = in.exe
	}
	o.pipe, o.steps, o.timeout = pipe, steps, 60*time.Second
	if j.update || strings.Contains(kind, "check") || j.gui {
		if strings.Contains(kind, "failing") {
			pub.over["releases1"] = reply{status: 500, body: []byte("oops")}
		}
		j.hub = c.pubHub(pub)
		o.dial, o.env = j.hub.dial(), c.tlsEnv()
	}
	if r.Intn(3) == 0 {
		o.dir = filepath.Join(w.dir, "other")
	}
	if j.gui {
		o.bin = ""
	}
	j.opts = o
	return j
}

// surroundings puts files of other programs around the program's own.
func (w *world) surroundings(r *rand.Rand) {
	for _, p := range []string{"other/file", "other/1pass", "other/default", "home/.config/another/app.yml", "home/file", "home/.bashrc", "home/cache-1pass-other/file", "home/1pass/file", "home/.config/1pass.yml", "home/.1pass"} {
		q := filepath.Join(w.dir, p)
		os.MkdirAll(filepath.Dir(q), 0755)
		mustWrite(q, rbytes(r, 10+r.Intn(50)))
	}
	if r.Intn(2) == 0 {
		os.MkdirAll(w.cfg, 0755)
		mustWrite(filepath.Join(w.cfg, "notes.txt"), rbytes(r, 30))
		os.MkdirAll(filepath.Join(w.cfg, "sub"), 0755)
		mustWrite(filepath.Join(w.cfg, "sub", "1pass.yml"), rbytes(r, 30))
	}
}
