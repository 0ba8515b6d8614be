package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"time"
	"unicode"
)

func init() {
	checks["C25"] = check{
		level: "runtime monitoring of random command lines: results against the reference listing or view, refusals and help texts against an effect monitor (files, network, prompts)",
		rule:  "a case is one command line: a documented command with its flags spelled and ordered at random, a call for help, or a line that says something undocumented; distinct = distinct command lines",
		run:   runC25,
	}
}

// cmdLine is what a user wants to say.
type cmdLine struct {
	cmd                    string
	vault, category, title *string
	trashed                *bool
	uid                    string
}

func shuffled(r *rand.Rand, l [][]string) [][]string {
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func strFlag(r *rand.Rand, long, short, val string) []string {
	if val == "" {
		return [][]string{{"--" + long, ""}, {"--" + long + "="}, {"-" + short, ""}}[r.Intn(3)]
	}
	switch r.Intn(5) {
	case 0:
		return []string{"--" + long, val}
	case 1:
		return []string{"--" + long + "=" + val}
	case 2:
		return []string{"-" + short, val}
	case 3:
		return []string{"-" + short + "=" + val}
	}
	if strings.HasPrefix(val, "=") {
		return []string{"-" + short, val}
	}
	return []string{"-" + short + val}
}

// spell writes a command line in one of its many equivalent forms.
func (l *cmdLine) spell(r *rand.Rand, other string) []string {
	var parts [][]string
	str := func(p *string, long, short string) {
		if p != nil {
			parts = append(parts, strFlag(r, long, short, *p))
		}
	}
	str(l.vault, "vault", "v")
	str(l.category, "category", "c")
	str(l.title, "name", "n")
	if l.trashed != nil {
		if *l.trashed {
			parts = append(parts, [][]string{{"-t"}, {"--trashed"}, {"--trashed=true"}, {"-t=true"}, {"--trashed=1"}}[r.Intn(5)])
		} else {
			parts = append(parts, [][]string{{"--trashed=false"}, {"-t=false"}, {"-t=0"}}[r.Intn(3)])
		}
	}
	if l.uid != "" {
		parts = append(parts, []string{l.uid})
	}
	parts = shuffled(r, parts)
	// -t joined with the flag behind it
	for n := 0; n+1 < len(parts); n++ {
		if parts[n][0] == "-t" && strings.HasPrefix(parts[n+1][0], "-") && !strings.HasPrefix(parts[n+1][0], "--") && r.Intn(3) == 0 {
			parts[n+1] = append([]string{"-t" + parts[n+1][0][1:]}, parts[n+1][1:]...)
			parts = append(parts[:n:n], parts[n+1:]...)
		}
	}
	// the last of repeated flags counts
	if l.title != nil && r.Intn(5) == 0 {
		parts = append([][]string{strFlag(r, "name", "n", other)}, parts...)
	}
	if l.vault != nil && r.Intn(6) == 0 {
		parts = append([][]string{strFlag(r, "vault", "v", "/nonexistent/"+other)}, parts...)
	}
	args := []string{l.cmd}
	for n, p := range parts {
		if n == len(parts)-1 && len(p) == 1 && p[0] == l.uid && l.uid != "" && r.Intn(4) == 0 {
			args = append(args, "--")
		}
		args = append(args, p...)
	}
	if l.uid == "" && r.Intn(8) == 0 {
		args = append(args, "--")
	}
	return args
}

func runC25(c *Ctx) {
	c.B.get("app")
	c.each("lines", 0, c.n(500, 9000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 1, genOpts{items: 1 + r.Intn(12), trashRate: 30, noNotes: true, noUnknown: true})
		v.write(r, w.vault)
		l := cmdLine{cmd: []string{"list", "list", "overview", "details"}[r.Intn(4)]}
		if r.Intn(2) == 0 {
			w.quiet("/nonexistent/configured")
			p := w.vault
			l.vault = &p
		} else {
			w.quiet(w.vault)
			if r.Intn(4) == 0 {
				p := ""
				l.vault = &p
			}
		}
		w.own()
		tr := false
		if r.Intn(3) > 0 {
			tr = r.Intn(3) > 0
			b := tr
			l.trashed = &b
		}
		cat, title := "", ""
		it := v.Items[r.Intn(len(v.Items))]
		if l.cmd == "list" {
			if r.Intn(2) == 0 {
				cat = it.Cat
				s := mixCase(r, catNames[cat])
				l.category = &s
			} else if r.Intn(6) == 0 {
				s := ""
				l.category = &s
			}
			if r.Intn(2) == 0 {
				title = strings.TrimSpace(mixCase(r, sub(r, it.Title)))
				if r.Intn(6) == 0 {
					title = []string{"-", "--", "-t", "--trashed", "=", "-v", "--help", "-h", "help", "a=b", "-c=Login"}[r.Intn(11)]
				}
				s := title
				l.title = &s
			}
		} else {
			l.uid = it.UID
			if r.Intn(8) == 0 {
				l.uid = hexUID(r)
			}
		}
		args := l.spell(r, phrase(r, 1))
		o := w.opts(args...)
		o.steps = []step{pw("pw")}
		res := c.run(o)
		if res.Stuck != "" || res.Code != 0 || res.crashed() || res.Timeout {
			c.violation(i, fmt.Sprintf("%q: status %d, waiting for %q", args, res.Code, res.Stuck), res.brief())
			return
		}
		if l.cmd == "list" {
			want := v.sel(cat, title, tr)
			got, e := parseTable(res.Out)
			if e == "" {
				e = sameListing(got, want, true)
			}
			if e != "" {
				c.violation(i, fmt.Sprintf("%q: %s", args, e), map[string]any{"run": res.brief(), "want": brief(want)})
				return
			}
			c.count("listings compared", 1)
		} else {
			x := v.find(l.uid)
			got := viewLines(afterPrompt(res.Out))
			if x != nil && x.Trashed == tr {
				if !eqLines(got, x.view(l.cmd == "overview")) {
					c.violation(i, fmt.Sprintf("%q shows something else: %s", args, lineDiff(got, x.view(l.cmd == "overview"))), map[string]any{"run": res.brief(), "item": itemWitness(x)})
					return
				}
				c.count("views compared", 1)
			} else {
				if len(got) != 1 || !strings.Contains(got[0], l.uid) {
					c.violation(i, fmt.Sprintf("%q for an item that does not exist prints %q", args, got), res.brief())
					return
				}
				c.count("missing items reported", 1)
			}
		}
		c.eval(fmt.Sprintf("%q", args))
		c.sample(args)
	})
	cmds := []string{"update", "configure", "categories", "list", "overview", "details", "version"}
	flagsOf := map[string][]string{"": {"-v, --vault"}, "list": {"-v, --vault", "-c, --category", "-n, --name", "-t, --trashed"}, "overview": {"-v, --vault", "-t, --trashed"}, "details": {"-v, --vault", "-t, --trashed"}}
	c.each("effects", 100000, c.n(500, 9000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 1, genOpts{items: 3, noNotes: true, noUnknown: true})
		v.write(r, w.vault)
		state := "no settings"
		switch r.Intn(3) {
		case 0:
			w.config("opvault: " + yq(w.vault) + "\ntimeout: 1\nupdate-notification: true\nupdate-period: 0\n")
			state = "checks on every run"
		case 1:
			w.quiet(w.vault)
			state = "no checks"
		}
		w.own()
		cmd := cmds[r.Intn(len(cmds))]
		uid := v.Items[r.Intn(3)].UID
		var args []string
		kind := []string{"refused", "refused", "refused", "refused", "help", "help", "version"}[r.Intn(7)]
		sub := ""
		switch kind {
		case "version":
			args = []string{"version"}
		case "help":
			switch r.Intn(3) {
			case 0:
				sub = []string{"", cmd}[r.Intn(2)]
				args = []string{"help"}
				if sub != "" {
					args = append(args, sub)
				}
			default:
				if r.Intn(6) > 0 {
					sub = cmd
					args = []string{cmd}
				}
				args = append(args, []string{"-h", "--help"}[r.Intn(2)])
				if (sub == "overview" || sub == "details") && r.Intn(2) == 0 {
					args = append(args, uid)
				}
				if sub == "list" && r.Intn(2) == 0 {
					args = append(args, "-n", "x")
				}
				if sub != "" && flagsOf[sub] != nil && r.Intn(3) == 0 {
					args = append(args, "-v", w.vault)
				}
			}
		case "refused":
			vaultCmd := []string{"list", "overview", "details"}[r.Intn(3)]
			full := []string{vaultCmd}
			if vaultCmd != "list" {
				full = append(full, uid)
			}
			switch r.Intn(12) {
			case 0: // no such command
				x := []string{cmd[:len(cmd)-1], cmd[:3], strings.ToUpper(cmd), strings.ToUpper(cmd[:1]) + cmd[1:], cmd + "s", "show", "gui", "lst", uid, w.vault, " ", "listing", "open", "remove", "lock"}[r.Intn(15)]
				args = []string{x}
				if r.Intn(2) == 0 {
					args = append(args, uid)
				}
				sub = "unknown command"
			case 1: // no such flag
				x := []string{"--password", "--password=pw", "-p", "-p=pw", "-x", "--Vault=" + w.vault, "--vaul=" + w.vault, "-V", "--verbose", "--yes", "-y", "--force", "-f", "--json", "--all", "-a", "---", "--=x"}[r.Intn(18)]
				args = append([]string{cmd}, x)
				if cmd == "overview" || cmd == "details" {
					args = append(args, uid)
				}
				sub = "unknown flag"
			case 2: // a flag of another command
				args = [][]string{{"overview", uid, "-c", "Login"}, {"details", uid, "-n", "x"}, {"details", "-c", "Login", uid}, {"overview", "--name=x", uid}, {"update", "-v", w.vault}, {"configure", "-t"}, {"categories", "-c", "Login"},
					{"-t"}, {"-c", "Login"}, {"--name", "x"}, {"version", "-v"}, {"update", "-t"}, {"categories", "--trashed"}, {"configure", "--vault", w.vault}}[r.Intn(14)]
				sub = "flag of another command"
			case 3: // a flag without its value
				x := [][]string{{"list", "-c"}, {"list", "--category"}, {"list", "-n"}, {"list", "--name"}, {"list", "-t", "-v"}, {"list", "--vault"}, {"overview", uid, "-v"}, {"details", uid, "--vault"}, {"-v"}, {"--vault"}, {"list", "-tc"}, {"details", uid, "-tv"}}
				args = x[r.Intn(len(x))]
				sub = "missing value"
			case 4:
				args = append(full, []string{"--trashed=maybe", "-t=yes", "--trashed=2", "-t=no", "--trashed=x"}[r.Intn(5)])
				sub = "not a truth value"
			case 5, 6: // too few
				args = []string{[]string{"overview", "details"}[r.Intn(2)]}
				if r.Intn(2) == 0 {
					args = append(args, [][]string{{"-t"}, {"-v", w.vault}, {"--"}, {"-v", uid}, {"--trashed", "--vault=" + w.vault}}[r.Intn(5)]...)
				}
				sub = "no UID"
			case 7, 8, 9: // too many
				args = append(full, [][]string{{w.vault}, {uid}, {"-t", w.vault}, {w.vault, "-t"}, {"--", w.vault}, {"x", "y"}, {""}, {"--", "-t"}, {v.Items[0].UID, v.Items[1].UID}, {"-t", "true"}}[r.Intn(10)]...)
				sub = "too many arguments"
			default: // both
				args = append(full, "-t", "--unknown", "x", "y")
				args = append(args[:1:1], shuffledArgs(r, args[1:])...)
				sub = "several faults"
			}
		}
		before := snapshot(w.dir)
		o := w.opts(args...)
		o.steps = []step{{expect: "Password:", noEcho: true, send: "pw\n", maybe: true}} // should it ask after all
		o.pipe = r.Intn(2) == 0
		if o.pipe {
			o.steps = []step{{send: "n\nn\n3\n3\npw\n"}}
		}
		o.timeout = 20 * time.Second
		res := c.run(o)
		wit := map[string]any{"args": args, "settings": state, "run": res.brief()}
		bad := func(f string, a ...any) {
			c.violation(i, fmt.Sprintf("%q (%s, %s): ", args, kind, state)+fmt.Sprintf(f, a...), wit)
		}
		if res.Timeout || res.crashed() {
			bad("does not end by itself")
			return
		}
		if d := diffSnap(before, snapshot(w.dir)); len(d) > 0 {
			bad("changes files: %s", strings.Join(d, "; "))
			return
		}
		if n := len(res.dials()); n > 0 {
			bad("uses the network")
			return
		}
		if res.Asked || strings.Contains(res.Out, "Configuring 1pass") {
			bad("asks instead")
			return
		}
		for _, it := range v.Items {
			if len(it.Title) > 6 && strings.Contains(res.Out, it.Title) {
				bad("shows %q", it.Title)
				return
			}
		}
		for _, e := range res.Events {
			if under(e.Path, w.vault) {
				bad("touches the vault: %s %s", e.Op, e.Path)
				return
			}
		}
		switch kind {
		case "refused":
			if res.Code == 0 {
				bad("reports success")
				return
			}
			if len(strings.FieldsFunc(res.Out, func(x rune) bool { return !unicode.IsLetter(x) })) < 2 {
				bad("gives no reason")
				return
			}
		case "help":
			if res.Code != 0 || !strings.Contains(res.Out, "Usage:") {
				bad("gives no help (status %d)", res.Code)
				return
			}
			for _, f := range flagsOf[sub] {
				if !strings.Contains(res.Out, f) {
					bad("the help does not mention %q", f)
					return
				}
			}
			if sub == "" {
				for _, x := range cmds {
					if !regexp.MustCompile(`(?m)^\s+` + x + `\s`).MatchString(res.Out) {
						bad("the help does not mention the command %q", x)
						return
					}
				}
			}
		case "version":
			if f := strings.TrimSpace(res.Out); res.Code != 0 || !regexp.MustCompile(`^=== \d+(\.\d+)* ===$`).MatchString(f) {
				bad("prints %q", f)
				return
			}
		}
		c.count(strings.TrimSpace(kind+" "+map[bool]string{true: sub}[kind == "refused"]), 1)
		c.eval(fmt.Sprintf("%q %s", args, state))
	})
}

func shuffledArgs(r *rand.Rand, l []string) []string {
	l = append([]string{}, l...)
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}
