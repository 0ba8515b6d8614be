package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

func init() {
	checks["C24"] = check{
		level: "runtime monitoring of the terminal's settings and of the control sequences written to it, over random sessions ended in many ways",
		rule:  "a case is one run on a pseudo terminal with random initial settings: a command or GUI session of any kind that ends by itself, or by an interrupt, a termination request or the end of input at the password prompt, a question or a screen; distinct = distinct (kind, ending, settings, size) combinations",
		run:   runC24,
	}
}

// randTermios changes settings of a terminal that do not matter for the program.
func randTermios(r *rand.Rand) func(*syscall.Termios) string {
	var in, loc, out uint32
	for _, f := range []uint32{syscall.IXON, syscall.IXANY, syscall.IXOFF, syscall.IUTF8, syscall.IMAXBEL, syscall.BRKINT, syscall.INPCK} {
		if r.Intn(3) == 0 {
			in |= f
		}
	}
	for _, f := range []uint32{syscall.ECHOE, syscall.ECHOK, syscall.ECHOCTL, syscall.ECHOKE, syscall.NOFLSH} {
		if r.Intn(3) == 0 {
			loc |= f
		}
	}
	if r.Intn(4) == 0 {
		out |= syscall.ONLCR
	}
	erase := byte(0x7f)
	if r.Intn(4) == 0 {
		erase = 0x08
	}
	return func(t *syscall.Termios) string {
		t.Iflag ^= in
		t.Lflag ^= loc
		t.Oflag ^= out
		t.Cc[syscall.VERASE] = erase
		return fmt.Sprintf("%x %x %x %x", t.Iflag, t.Lflag, t.Oflag, erase)
	}
}

func termDiff(a, b *syscall.Termios) string {
	var d []string
	if a.Iflag != b.Iflag {
		d = append(d, fmt.Sprintf("input modes %#o became %#o", a.Iflag, b.Iflag))
	}
	if a.Oflag != b.Oflag {
		d = append(d, fmt.Sprintf("output modes %#o became %#o", a.Oflag, b.Oflag))
	}
	if a.Cflag != b.Cflag {
		d = append(d, fmt.Sprintf("control modes %#o became %#o", a.Cflag, b.Cflag))
	}
	if a.Lflag != b.Lflag {
		s := fmt.Sprintf("local modes %#o became %#o", a.Lflag, b.Lflag)
		if a.Lflag&syscall.ECHO != 0 && b.Lflag&syscall.ECHO == 0 {
			s += " (echo is off)"
		}
		if a.Lflag&syscall.ICANON != 0 && b.Lflag&syscall.ICANON == 0 {
			s += " (line editing is off)"
		}
		d = append(d, s)
	}
	if a.Cc != b.Cc {
		d = append(d, fmt.Sprintf("control characters %v became %v", a.Cc, b.Cc))
	}
	return strings.Join(d, ", ")
}

var ctlSeq = regexp.MustCompile("\x1b\\[(\\??)([0-9;]*)([a-zA-Z])|\x1b([=>])")

// leftModes follows the control sequences of a transcript and says what they leave switched.
func leftModes(raw string) (left []string, seen int) {
	on := map[string]bool{}
	sgr := ""
	for _, m := range ctlSeq.FindAllStringSubmatch(raw, -1) {
		seen++
		switch {
		case m[4] != "":
			on["application keypad"] = m[4] == "="
		case m[1] == "?" && (m[3] == "h" || m[3] == "l"):
			for _, p := range strings.Split(m[2], ";") {
				set := m[3] == "h"
				switch p {
				case "1049", "1047", "47":
					on["alternate screen"] = set
				case "25":
					on["hidden cursor"] = !set
				case "1":
					on["application cursor keys"] = set
				case "9", "1000", "1002", "1003", "1005", "1006", "1015":
					on["mouse reports"] = set
				case "2004":
					on["bracketed paste"] = set
				case "7":
					on["no line wrap"] = !set
				}
			}
		case m[1] == "" && m[3] == "m":
			for _, p := range strings.Split(m[2], ";") {
				if p == "" || p == "0" {
					sgr = ""
				} else {
					sgr = m[2]
				}
			}
		}
	}
	for _, k := range []string{"alternate screen", "hidden cursor", "application cursor keys", "application keypad", "mouse reports", "bracketed paste", "no line wrap"} {
		if on[k] {
			left = append(left, k)
		}
	}
	if sgr != "" {
		left = append(left, "colours "+sgr)
	}
	return
}

func runC24(c *Ctx) {
	c.B.get("app")
	judge := func(i int, kind, ending string, res *result) bool {
		wit := res.brief()
		wit["ending"] = ending
		bad := func(f string, a ...any) bool {
			c.violation(i, fmt.Sprintf("'%s' ended by %s: ", kind, ending)+fmt.Sprintf(f, a...), wit)
			return false
		}
		if res.Timeout {
			return bad("the program does not end")
		}
		if res.crashed() && !res.Killed {
			return bad("the program crashes")
		}
		if d := termDiff(res.TermBefore, res.TermAfter); d != "" {
			return bad("the terminal is left with other settings: %s", d)
		}
		left, n := leftModes(res.Raw)
		if len(left) > 0 {
			return bad("the terminal is left with %s", strings.Join(left, ", "))
		}
		c.count("control sequences followed", n)
		c.count("ended by "+strings.Split(ending, ",")[0], 1)
		return true
	}
	c.each("commands", 0, c.n(120, 1500), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		w.surroundings(r)
		v := randGuiVault(r, 8)
		v.write(r, w.vault)
		in := w.install(0755)
		kind := jobKinds[i%len(jobKinds)]
		j := w.makeJob(r, kind, v, in, "wrong"+v.Password)
		if j.hub != nil {
			defer j.hub.close()
		}
		if j.gui {
			return
		}
		w.own()
		o := j.opts
		o.pipe = false
		sig := ""
		set := randTermios(r)
		o.termios = func(t *syscall.Termios) { sig = set(t) }
		switch kind {
		case "no password": // the end of input does not answer the prompt
			o.steps = []step{{expect: "Password:", noEcho: true, send: "\x04"}, {send: "\n"}}
		case "update without answer":
			o.steps = []step{{send: "\x04"}}
		}
		for n := range o.steps {
			o.steps[n].maybe = true
		}
		res := c.run(o)
		if judge(i, kind, "itself", res) {
			c.eval(fmt.Sprint(kind, sig))
		}
	})
	// the password prompt and the questions
	c.each("interrupt", 100000, c.n(120, 2000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		w.surroundings(r)
		v := genVault(r, "the password", 5, genOpts{items: 1 + r.Intn(4), uniqueTitles: true})
		v.write(r, w.vault)
		kind := []string{"list", "overview", "details", "configure", "first run list", "list", "overview", "details"}[i%8]
		j := w.makeJob(r, kind, v, nil, "wrong")
		w.own()
		o := j.opts
		o.pipe, o.timeout = false, 30*time.Second
		sig := ""
		set := randTermios(r)
		o.termios = func(t *syscall.Termios) { sig = set(t) }
		typed := firstN("the password and more", r.Intn(14))
		atPrompt := kind == "list" || kind == "overview" || kind == "details"
		if atPrompt {
			o.steps = []step{{expect: "Password:", noEcho: true, send: typed}}
		} else {
			q := []string{"1. Do", "2. Up", "3. Up", "4. How"}[r.Intn(4)]
			o.steps = []step{{expect: "1. Do", send: "n\n"}, {expect: "2. Up", send: "n\n"}, {expect: "3. Up", send: "1\n"}, {expect: "4. How", send: "x"}}
			for n, s := range o.steps {
				if s.expect == q {
					o.steps = o.steps[:n+1]
					o.steps[n].send = typed
					break
				}
			}
		}
		var ending string
		switch r.Intn(3) {
		case 0:
			ending = "Ctrl+C"
			o.steps = append(o.steps, step{send: "\x03"})
		case 1:
			ending = "SIGINT"
			o.steps = append(o.steps, step{sig: syscall.SIGINT})
		case 2:
			ending = "SIGTERM"
			o.steps = append(o.steps, step{sig: syscall.SIGTERM})
		}
		if r.Intn(3) == 0 {
			o.steps[len(o.steps)-1].delay = time.Duration(r.Intn(40)) * time.Millisecond
		}
		res := c.run(o)
		if res.Stuck != "" {
			c.violation(i, fmt.Sprintf("'%s' never asks %q", kind, res.Stuck), res.brief())
			return
		}
		if !judge(i, kind, ending, res) {
			return
		}
		if res.Code == 0 {
			c.violation(i, fmt.Sprintf("'%s' ended by %s reports success", kind, ending), res.brief())
			return
		}
		for _, it := range v.Items {
			if len(it.Title) > 5 && strings.Contains(res.Out, it.Title) {
				c.violation(i, fmt.Sprintf("'%s' ended by %s at the prompt shows %q", kind, ending, it.Title), res.brief())
				return
			}
		}
		c.count("interrupted at "+map[bool]string{true: "the password", false: "a question"}[atPrompt], 1)
		c.eval(fmt.Sprint(kind, ending, sig, typed))
	})
	// the GUI on the real terminal library
	c.each("gui", 200000, c.n(60, 800), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "ptypass", 5, genOpts{narrow: true, uniqueTitles: true, items: r.Intn(12), trashRate: 30, noUnknown: true})
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		o := w.opts()
		o.timeout = 40 * time.Second
		if check := r.Intn(4); check > 0 { // the update check is answered, fails or is still under way
			pub := newPub(r, "9.9.9", 2000)
			switch check {
			case 1:
				pub.over["releases1"] = reply{status: 500, body: []byte("oops")}
			case 2:
				pub.over["releases1"] = reply{mode: "stallhead"}
			}
			hub := c.pubHub(pub)
			defer hub.close()
			o.dial, o.env = hub.dial(), c.tlsEnv()
		}
		sig := ""
		set := randTermios(r)
		o.termios = func(t *syscall.Termios) { sig = set(t) }
		o.w, o.h = anySize(r)
		start := fmt.Sprintf("%dx%d", o.w, o.h)
		o.steps = []step{{expect: "\x1b[?1049h"}}
		pause := func(s step) {
			s.delay = time.Duration(1+r.Intn(25)) * time.Millisecond
			o.steps = append(o.steps, s)
		}
		if fits(o.w, o.h) {
			o.steps = append(o.steps, step{expect: "Password"})
		}
		for n := r.Intn(3) * r.Intn(4); n > 0; n-- { // wrong passwords and the error dialog
			pause(step{send: firstN("wrongpassword", r.Intn(9)) + "\r"})
			if r.Intn(8) > 0 {
				pause(step{send: "\r"})
			}
		}
		if r.Intn(6) > 0 {
			pause(step{send: "ptypass\r"})
		}
		for n := r.Intn(14); n > 0; n-- {
			switch r.Intn(4) {
			case 0:
				a, b := anySize(r)
				pause(step{size: [2]int{a, b}})
			default:
				pause(step{send: []string{"\r", "\t", "j", "k", "q", "l", "\x1b[A", "\x1b[B", "\x1bOA", "x", "\x0c", "\x03", "\x1a", "\x0c" + "ptypass\r", "\t" + "\x0c" + "ptypass\r"}[r.Intn(15)]})
			}
		}
		ending := []string{"Ctrl+Q", "Ctrl+Q", "SIGTERM", "SIGINT"}[r.Intn(4)]
		switch ending {
		case "Ctrl+Q":
			pause(step{send: "\x11"})
		case "SIGTERM":
			pause(step{sig: syscall.SIGTERM})
		case "SIGINT":
			pause(step{sig: syscall.SIGINT})
		}
		res := c.run(o)
		if res.Stuck != "" {
			c.violation(i, fmt.Sprintf("the GUI on a terminal of %s never shows %q", start, res.Stuck), res.brief())
			return
		}
		if !judge(i, "gui", ending, res) {
			return
		}
		if ending == "Ctrl+Q" && res.Code != 0 {
			c.violation(i, fmt.Sprintf("Ctrl+Q ends the GUI with status %d", res.Code), res.brief())
			return
		}
		c.count("GUI sessions on the real terminal library", 1)
		c.eval(fmt.Sprint("gui", ending, sig, start, len(o.steps)))
	}) // a vault that turns out damaged once the password is typed in the GUI
	c.each("damaged", 300000, c.n(40, 600), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "ptypass", 5, genOpts{narrow: true, uniqueTitles: true, items: 1 + r.Intn(8), noUnknown: true})
		v.write(r, w.vault)
		w.quiet(w.vault)
		o := w.opts()
		o.timeout = 40 * time.Second
		sig := ""
		set := randTermios(r)
		o.termios = func(t *syscall.Termios) { sig = set(t) }
		d := filepath.Join(w.vault, "default")
		names := []string{"profile.js"}
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if strings.HasPrefix(e.Name(), "band_") {
				names = append(names, e.Name())
			}
		}
		name := names[r.Intn(len(names))]
		p := filepath.Join(d, name)
		good, err := os.ReadFile(p)
		if err != nil {
			infra("vault: %v", err)
		}
		kind := ""
		spoil := func() {
			switch r.Intn(8) {
			case 0:
				kind = "a directory"
				os.Remove(p)
				os.Mkdir(p, 0755)
			case 1:
				kind = "missing"
				os.Remove(p)
			case 2:
				kind = "unreadable"
				os.Chmod(p, 0)
			default:
				var b []byte
				b, kind = spoilText(r, good)
				mustWrite(p, b)
			}
		}
		late := r.Intn(3) == 0 // after a successful unlock
		o.steps = []step{{expect: "Password"}}
		if late {
			o.steps = append(o.steps, step{send: "ptypass\r"}, step{expect: "All"}, step{call: func() { spoil() }}, step{send: "\x0c"}, step{expect: "Password"})
		} else if r.Intn(3) == 0 {
			o.steps = append(o.steps, step{call: func() { spoil() }})
		} else {
			spoil()
		}
		w.own()
		if fi, err := os.Lstat(p); err == nil && kind == "unreadable" && fi.Mode().IsRegular() {
			os.Chmod(p, 0)
		}
		o.steps = append(o.steps, step{send: "ptypass\r", maybe: true}, step{send: "\x11", delay: 400 * time.Millisecond, maybe: true})
		res := c.run(o)
		if res.Stuck != "" && (late || name != "profile.js") {
			c.violation(i, fmt.Sprintf("the GUI never shows %q", res.Stuck), res.brief())
			return
		}
		how := "itself, " + map[bool]string{true: "profile ", false: "band "}[name == "profile.js"] + kind
		if !judge(i, "gui", how, res) {
			return
		}
		if res.Code != 0 && !res.Killed {
			tail := res.Raw
			if k := strings.LastIndex(tail, "\x1b[?1049l"); k >= 0 {
				tail = tail[k:]
			}
			if !regexp.MustCompile("[a-z]{3}").MatchString(ctlSeq.ReplaceAllString(tail, "")) {
				wit := res.brief()
				c.violation(i, fmt.Sprintf("the GUI ends (%s) with status %d and the terminal given back shows no reason", how, res.Code), wit)
				return
			}
			c.count("GUI sessions ended by an error", 1)
		}
		c.eval(fmt.Sprint("damaged", how, sig, late))
	})
}
