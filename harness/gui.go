package main

// GUI sessions over the monitored terminal: keys in, screen frames out, and a model of what the screen must show.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"
)

const (
	kEnter = 0x0D
	kTab   = 0x09
	kCtrlL = 0x0C
	kCtrlQ = 0x11
	kBack  = 0x7F
	kSpace = 0x20
	kEsc   = 0x1B
	kUp    = 0xFFFF - 18
	kDown  = 0xFFFF - 19
	kLeft  = 0xFFFF - 20
	kRight = 0xFFFF - 21
	kDel   = 0xFFFF - 13
	kIns   = 0xFFFF - 12
	kHome  = 0xFFFF - 14
	kPgDn  = 0xFFFF - 17
	kF1    = 0xFFFF
)

type gkey struct {
	Key int
	Ch  rune
}

func (k gkey) String() string {
	if k.Ch != 0 {
		return fmt.Sprintf("%q", k.Ch)
	}
	switch k.Key {
	case kEnter:
		return "Enter"
	case kTab:
		return "Tab"
	case kCtrlL:
		return "Ctrl+L"
	case kCtrlQ:
		return "Ctrl+Q"
	case kUp:
		return "Up"
	case kDown:
		return "Down"
	case kLeft:
		return "Left"
	case kRight:
		return "Right"
	case kSpace:
		return "Space"
	case kBack:
		return "Backspace"
	}
	return fmt.Sprintf("key%#x", k.Key)
}

func ch(r rune) gkey {
	if r == ' ' {
		return gkey{Key: kSpace}
	}
	return gkey{Ch: r}
}

func keys(s string) []gkey {
	var out []gkey
	for _, r := range s {
		out = append(out, ch(r))
	}
	return out
}

func keyStrings(ks []gkey) []string {
	var out []string
	for _, k := range ks {
		out = append(out, k.String())
	}
	return out
}

type frame struct {
	handled, w, h int
	rows          [][]rune
	bg, fg        []string
}

func (f *frame) text() string {
	var b strings.Builder
	for _, r := range f.rows {
		b.WriteString(strings.TrimRight(string(r), " "))
		b.WriteByte('\n')
	}
	return b.String()
}

type box struct{ x0, y0, x1, y1 int }

// box finds the frame with the given title.
func (f *frame) box(title string) *box {
	pat := []rune("┌─" + title)
	for y, row := range f.rows {
		for x := 0; x+len(pat) < len(row); x++ {
			ok := true
			for i, p := range pat {
				if row[x+i] != p {
					ok = false
					break
				}
			}
			if !ok || (row[x+len(pat)] != '─' && row[x+len(pat)] != '┐') {
				continue
			}
			x1 := x + len(pat)
			for x1 < len(row) && row[x1] == '─' {
				x1++
			}
			if x1 >= len(row) || row[x1] != '┐' {
				continue
			}
			y1 := y + 1
			for y1 < len(f.rows) && f.rows[y1][x] == '│' {
				y1++
			}
			if y1 >= len(f.rows) || f.rows[y1][x] != '└' {
				continue
			}
			return &box{x, y, x1, y1}
		}
	}
	return nil
}

// inner returns the text rows inside a box, right-trimmed.
func (f *frame) inner(b *box) []string {
	var out []string
	for y := b.y0 + 1; y < b.y1; y++ {
		out = append(out, strings.TrimRight(string(seen(f.rows[y][b.x0+1:b.x1])), " "))
	}
	return out
}

// lit returns the indexes of inner rows that carry the highlight colour.
func (f *frame) lit(b *box) []int {
	var out []int
	for y := b.y0 + 1; y < b.y1; y++ {
		for x := b.x0 + 1; x < b.x1; x++ {
			if f.bg[y][x] == '5' {
				out = append(out, y-b.y0-1)
				break
			}
		}
	}
	return out
}

// lockBuf is a buffer that can be read while it is written.
type lockBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type gui struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *os.File
	rd      *os.File
	errb    *lockBuf
	evlog   string
	w, h    int
	seq     int
	mu      sync.Mutex
	cond    *sync.Cond
	last    *frame
	nframes int
	eof     bool
	closed  bool // the terminal was given back
	exited  bool
	code    int
	killed  bool
	onFrame func(*frame)
	log     []gkey
}

func (c *Ctx) guiStart(o runOpts, kind string, w, h int, onFrame func(*frame)) *gui {
	g := &gui{c: c, w: w, h: h, errb: &lockBuf{}, onFrame: onFrame}
	g.cond = sync.NewCond(&g.mu)
	if !o.bare {
		g.evlog = c.evlogPath()
	}
	bin := o.bin
	if bin == "" {
		bin = c.B.get(kind)
	}
	cmd := exec.Command(bin, o.args...)
	o.env = append(o.env, "VERIF_TB_IN=3", "VERIF_TB_OUT=4", fmt.Sprintf("VERIF_TB_SIZE=%dx%d", w, h))
	cmd.Env = c.monEnv(&o, g.evlog)
	cmd.Dir = o.home
	if o.dir != "" {
		cmd.Dir = o.dir
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: c.cred()}
	ir, iw, err := os.Pipe()
	if err != nil {
		infra("pipe: %v", err)
	}
	or, ow, err := os.Pipe()
	if err != nil {
		infra("pipe: %v", err)
	}
	cmd.ExtraFiles = []*os.File{ir, ow}
	cmd.Stdout, cmd.Stderr = g.errb, g.errb
	if err := cmd.Start(); err != nil {
		infra("gui start: %v", err)
	}
	ir.Close()
	ow.Close()
	g.cmd, g.in, g.rd = cmd, iw, or
	go g.reader()
	return g
}

func (g *gui) reader() {
	br := bufio.NewReaderSize(g.rd, 1<<20)
	line := func() (string, error) {
		s, err := br.ReadString('\n')
		return strings.TrimSuffix(s, "\n"), err
	}
	for {
		l, err := line()
		if err != nil {
			break
		}
		if l == "C" {
			g.mu.Lock()
			g.closed = true
			g.mu.Unlock()
			continue
		}
		f := &frame{}
		if n, _ := fmt.Sscanf(l, "F %d %d %d", &f.handled, &f.w, &f.h); n != 3 {
			continue
		}
		for y := 0; y < f.h && err == nil; y++ {
			var t, b, fg string
			t, err = line()
			if err == nil {
				b, err = line()
			}
			if err == nil {
				fg, err = line()
			}
			f.rows = append(f.rows, []rune(t))
			f.bg = append(f.bg, b)
			f.fg = append(f.fg, fg)
		}
		if err != nil {
			break
		}
		if g.onFrame != nil {
			g.onFrame(f)
		}
		g.mu.Lock()
		g.last = f
		g.nframes++
		g.cond.Broadcast()
		g.mu.Unlock()
	}
	err := g.cmd.Wait()
	r := &result{}
	if err == nil {
		r.Code = 0
	} else if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			r.Killed, r.Code = true, 128+int(ws.Signal())
		} else {
			r.Code = ws.ExitStatus()
		}
	} else if err != io.EOF {
		r.Code = -1
	}
	g.mu.Lock()
	g.eof, g.exited, g.code, g.killed = true, true, r.Code, r.Killed
	g.cond.Broadcast()
	g.mu.Unlock()
}

// wakeAfter makes waiters look at the clock once d is over.
func (g *gui) wakeAfter(d time.Duration) func() {
	late, stop := after(d + 10*time.Millisecond)
	done := make(chan struct{})
	go func() {
		select {
		case <-late:
			g.mu.Lock()
			g.cond.Broadcast()
			g.mu.Unlock()
		case <-done:
		}
	}()
	return func() { stop(); close(done) }
}

// stuck makes a program that does not answer print what its threads are doing.
func (g *gui) stuck() *frame {
	if !g.hasExited() {
		syscall.Kill(g.cmd.Process.Pid, syscall.SIGQUIT)
		g.waitExit(5 * time.Second)
	}
	return nil
}

// wait blocks until cond holds for the latest frame (or the program ended); nil on timeout or end.
func (g *gui) wait(d time.Duration, ok func(*frame) bool) *frame {
	deadline := running() + d
	defer g.wakeAfter(d)()
	g.mu.Lock()
	defer g.mu.Unlock()
	for {
		if g.last != nil && ok(g.last) {
			return g.last
		}
		if g.exited || running() > deadline {
			return nil
		}
		g.cond.Wait()
	}
}

func (g *gui) first() *frame {
	if f := g.wait(60*time.Second, func(*frame) bool { return true }); f != nil {
		return f
	}
	return g.stuck()
}

func (g *gui) send(k gkey) int {
	g.seq++
	g.log = append(g.log, k)
	fmt.Fprintf(g.in, "K %d %d %d 0\n", g.seq, k.Key, k.Ch)
	return g.seq
}

// press sends one key and returns the frame drawn after it was handled (nil: none came).
func (g *gui) press(k gkey) *frame {
	n := g.send(k)
	if f := g.wait(60*time.Second, func(f *frame) bool { return f.handled >= n }); f != nil {
		return f
	}
	return g.stuck()
}

// resize changes the size of the terminal and returns the frame drawn after that.
func (g *gui) resize(w, h int) *frame {
	g.seq++
	n := g.seq
	g.w, g.h = w, h
	fmt.Fprintf(g.in, "R %d %d %d\n", n, w, h)
	if f := g.wait(60*time.Second, func(f *frame) bool { return f.handled >= n }); f != nil {
		return f
	}
	return g.stuck()
}

// batch sends up to 20 keys that the program receives before it gets to redraw.
func (g *gui) batch(ks []gkey) *frame {
	// a first key that does nothing makes the loop run into the held redraw
	fmt.Fprintf(g.in, "H %d\n", g.seq+1+len(ks))
	g.send(gkey{Key: kF1})
	time.Sleep(15 * time.Millisecond)
	n := 0
	for _, k := range ks {
		n = g.send(k)
	}
	if f := g.wait(60*time.Second, func(f *frame) bool { return f.handled >= n }); f != nil {
		return f
	}
	return g.stuck()
}

func (g *gui) typeText(s string) *frame {
	var f *frame
	for _, k := range keys(s) {
		f = g.press(k)
		if f == nil {
			return nil
		}
	}
	return f
}

// quit sends Ctrl+Q and waits for the end; false if the program does not end.
func (g *gui) quit() bool {
	g.send(gkey{Key: kCtrlQ})
	return g.waitExit(30 * time.Second)
}

func (g *gui) waitExit(d time.Duration) bool {
	deadline := running() + d
	defer g.wakeAfter(d)()
	g.mu.Lock()
	defer g.mu.Unlock()
	for !g.exited && running() <= deadline {
		g.cond.Wait()
	}
	return g.exited
}

func (g *gui) hasExited() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.exited
}

func (g *gui) kill() {
	if !g.hasExited() {
		syscall.Kill(-g.cmd.Process.Pid, syscall.SIGKILL)
		g.waitExit(20 * time.Second)
	}
	g.in.Close()
	g.rd.Close()
	os.Remove(g.evlog)
}

func (g *gui) stderr() string { return g.errb.String() }

func (g *gui) events() []event { return readEvents(g.evlog) }

func (g *gui) witness(extra map[string]any) map[string]any {
	g.mu.Lock()
	defer g.mu.Unlock()
	scr := "(no frame)"
	if g.last != nil {
		scr = g.last.text()
	}
	m := map[string]any{"keys": keyStrings(g.log), "screen": strings.Split(scr, "\n"), "stderr": firstN(g.errb.String(), 4000),
		"exited": g.exited, "code": g.code, "size": fmt.Sprintf("%dx%d", g.w, g.h)}
	for k, v := range extra {
		m[k] = v
	}
	return m
}

// ---- the model ----

type catEntry struct {
	label   string // as shown
	cat     string
	all     bool
	trashed bool
	items   []*VItem
}

// catEntries says what the category screen must list for a vault.
func catEntries(v *Vault) []catEntry {
	var out []catEntry
	live, trash := v.sel("", "", false), v.sel("", "", true)
	if len(live) > 0 {
		out = append(out, catEntry{label: fmt.Sprintf("All (%d)", len(live)), all: true, items: live})
		for _, code := range catCodes {
			if s := v.sel(code, "", false); len(s) > 0 {
				out = append(out, catEntry{label: fmt.Sprintf("%s (%d)", catNames[code], len(s)), cat: code, items: s})
			}
		}
	}
	if len(trash) > 0 {
		out = append(out, catEntry{label: fmt.Sprintf("Trashed (%d)", len(trash)), trashed: true, items: trash})
	}
	return out
}

type gstate int

const (
	gsPrompt gstate = iota
	gsError
	gsCats
	gsItems
	gsDetails
)

func (s gstate) String() string {
	return []string{"prompt", "error", "categories", "items", "details"}[s]
}

type model struct {
	v       *Vault
	pass    string
	state   gstate
	typed   []rune
	unsure  bool // the typed text is not known exactly
	cats    []catEntry
	ci, ii  int
	ox, oy  int
	shown   bool // details scrolled down at least once since revealed
	reveals int
	unlocks int
	locks   int
	states  map[string]int
	fixed   map[int]bool // places of the open list whose item is known for sure (equal titles have no fixed order)
}

func newModel(v *Vault) *model {
	return &model{v: v, pass: v.Password, cats: catEntries(v), states: map[string]int{}}
}

func (m *model) items() []*VItem {
	if m.ci < len(m.cats) {
		return m.cats[m.ci].items
	}
	return nil
}

func (m *model) item() *VItem { return m.items()[m.ii] }

// key advances the model.
func (m *model) key(k gkey) {
	down := k.Ch == 'j' || k.Key == kDown && k.Ch == 0
	up := k.Ch == 'k' || k.Key == kUp && k.Ch == 0
	left := k.Ch == 'h' || k.Key == kLeft && k.Ch == 0
	right := k.Ch == 'l' || k.Key == kRight && k.Ch == 0
	isKey := func(x int) bool { return k.Ch == 0 && k.Key == x }
	switch m.state {
	case gsPrompt:
		switch {
		case k.Ch != 0:
			m.typed = append(m.typed, k.Ch)
		case isKey(kSpace):
			m.typed = append(m.typed, ' ')
		case isKey(kBack):
			if len(m.typed) > 0 {
				m.typed = m.typed[:len(m.typed)-1]
			}
		case isKey(kEnter):
			if m.unsure {
				return
			}
			if string(m.typed) == m.pass {
				m.state, m.ci, m.ii = gsCats, 0, 0
				m.unlocks++
			} else {
				m.state = gsError
			}
			m.typed = nil
		case isKey(kUp), isKey(kDown), isKey(kLeft), isKey(kRight), isKey(kDel), isKey(kIns), isKey(0x08):
			m.unsure = true
		}
	case gsError:
		if isKey(kEnter) {
			m.state, m.typed, m.unsure = gsPrompt, nil, false
		}
	case gsCats:
		switch {
		case isKey(kCtrlL):
			m.lock()
		case down:
			if m.ci < len(m.cats)-1 {
				m.ci++
			}
		case up:
			if m.ci > 0 {
				m.ci--
			}
		case right, isKey(kEnter):
			if len(m.cats) > 0 {
				m.state, m.ii, m.ox, m.oy = gsItems, 0, 0, 0
				m.fixed = map[int]bool{}
			}
		}
	case gsItems:
		switch {
		case isKey(kCtrlL):
			m.lock()
		case down:
			if m.ii < len(m.items())-1 {
				m.ii++
			}
		case up:
			if m.ii > 0 {
				m.ii--
			}
		case left, k.Ch == 'q':
			m.state = gsCats
		case isKey(kTab):
			m.state, m.ox, m.oy = gsDetails, 0, 0
			m.reveals++
		}
	case gsDetails:
		switch {
		case isKey(kCtrlL):
			m.lock()
		case down:
			m.oy++
		case up:
			if m.oy > 0 {
				m.oy--
			}
		case right:
			m.ox++
		case left:
			if m.ox > 0 {
				m.ox--
			}
		case isKey(kTab):
			m.state, m.ox, m.oy = gsItems, 0, 0
		}
	}
}

func (m *model) lock() {
	m.state, m.typed, m.unsure = gsPrompt, nil, false
	m.ci, m.ii = 0, 0
	m.locks++
	m.cats = catEntries(m.v)
}

// twoCells says that a terminal shows the character in two cells.
func twoCells(r rune) bool {
	return r >= 0x1100 && r <= 0x115f || r >= 0x2e80 && r <= 0xa4cf && r != 0x303f || r >= 0xac00 && r <= 0xd7a3 || r >= 0xf900 && r <= 0xfaff ||
		r >= 0xff01 && r <= 0xff60 || r >= 0x1f300 && r <= 0x1f64f
}

// seen drops the cells that are below the second half of the character before.
func seen(cells []rune) []rune {
	var out []rune
	for i := 0; i < len(cells); i++ {
		out = append(out, cells[i])
		if twoCells(cells[i]) {
			i++
		}
	}
	return out
}

// clip says what a row of w cells shows of a line from its cell ox on.
func clip(s string, ox, w int) string {
	var r []rune
	for _, x := range s {
		if unicode.IsControl(x) {
			x = ' ' // no terminal shows it
		}
		r = append(r, x)
		if twoCells(x) {
			r = append(r, ' ')
		}
	}
	if ox >= len(r) {
		return ""
	}
	r = r[ox:]
	if len(r) > w {
		r = r[:w]
	}
	return strings.TrimRight(string(seen(r)), " ")
}

func isRule(s string) bool {
	t := strings.TrimSpace(s)
	return t != "" && strings.Trim(t, "-") == ""
}

// window checks that the visible rows are a window of the list that contains entry idx on a highlighted row.
func window(f *frame, b *box, list []string, idx int, centered bool) string {
	rows := f.inner(b)
	lit := f.lit(b)
	width := b.x1 - b.x0 - 1
	norm := func(s string) string {
		if centered {
			return strings.TrimSpace(s)
		}
		return clip(s, 0, width)
	}
	if len(lit) != 1 {
		return fmt.Sprintf("%d highlighted rows instead of one", len(lit))
	}
	got := rows[lit[0]]
	if centered {
		got = strings.TrimSpace(got)
	}
	if got != norm(list[idx]) {
		return fmt.Sprintf("highlighted %q, expected %q", got, norm(list[idx]))
	}
	start := idx - lit[0]
	if start < 0 {
		return fmt.Sprintf("entry %d highlighted on row %d", idx, lit[0])
	}
	for i, r := range rows {
		want := ""
		if start+i < len(list) {
			want = norm(list[start+i])
		}
		if centered {
			r = strings.TrimSpace(r)
		}
		if r != want {
			return fmt.Sprintf("row %d shows %q, expected %q", i, r, want)
		}
	}
	return ""
}

func squeeze(rows []string) []string {
	var out []string
	for _, r := range rows {
		if strings.TrimSpace(r) != "" && !isRule(r) {
			out = append(out, strings.TrimRight(r, " "))
		}
	}
	return out
}

// pane checks the details pane against an item's view.
func pane(f *frame, b *box, it *VItem, masked bool, ox, oy int) string {
	width := b.x1 - b.x0 - 1
	var want []string
	for _, l := range it.view(masked) {
		if c := clip(l, ox, width); strings.TrimSpace(c) != "" && !isRule(c) {
			want = append(want, c)
		}
	}
	rows := f.inner(b)
	got := squeeze(rows)
	if oy == 0 {
		full := len(rows) > 0 && strings.TrimSpace(rows[len(rows)-1]) != ""
		// content may continue below the pane: everything visible is a prefix
		if len(got) > len(want) {
			return fmt.Sprintf("more lines than the item has: %q", got)
		}
		for i := range got {
			if got[i] != want[i] {
				return fmt.Sprintf("line %d is %q, expected %q", i, got[i], want[i])
			}
		}
		if len(got) < len(want) && ox == 0 && !full {
			// the last row may be among the blank separators; then nearly all rows are in use
			used := 0
			for i, r := range rows {
				if strings.TrimSpace(r) != "" {
					used = i + 1
				}
			}
			if used < len(rows)-3 {
				return fmt.Sprintf("missing line %q", want[len(got)])
			}
		}
		return ""
	}
	if len(got) == 0 {
		return ""
	}
	for s := 0; s+len(got) <= len(want); s++ {
		ok := true
		for i := range got {
			if got[i] != want[s+i] {
				ok = false
				break
			}
		}
		if ok {
			return ""
		}
	}
	return fmt.Sprintf("visible lines %q are no part of the item's text", got)
}

// check compares a frame with the model; "" if it agrees.
func (m *model) check(f *frame) string {
	m.states[m.state.String()]++
	main := f.box("1Pass")
	if main == nil {
		return "no main frame"
	}
	if f.box("Version") == nil || f.box("Help") == nil {
		return "no version or help frame"
	}
	items, det, prompt, errb := f.box("Items"), f.box("Details"), f.box("Password"), f.box("Error")
	want := map[gstate][4]bool{gsPrompt: {false, false, true, false}, gsError: {false, false, false, true}, gsCats: {},
		gsItems: {true, true}, gsDetails: {true, true}}[m.state]
	have := [4]bool{items != nil, det != nil, prompt != nil, errb != nil}
	if have != want {
		return fmt.Sprintf("in state %v the frames Items/Details/Password/Error are %v", m.state, have)
	}
	switch m.state {
	case gsPrompt, gsError:
		pop := prompt
		if m.state == gsError {
			pop = errb
			if t := strings.TrimSpace(strings.Join(f.inner(pop), " ")); t != "invalid password" {
				return fmt.Sprintf("error dialog says %q", t)
			}
		} else {
			t := strings.Join(f.inner(pop), "")
			if strings.Trim(t, "*") != "" {
				return fmt.Sprintf("prompt shows %q", t)
			}
			if !m.unsure && len(m.typed) < 50 && len(t) != len(m.typed) {
				return fmt.Sprintf("prompt shows %d stars for %d typed characters", len(t), len(m.typed))
			}
		}
		for y := main.y0 + 1; y < main.y1; y++ {
			for x := main.x0 + 1; x < main.x1; x++ {
				if y >= pop.y0 && y <= pop.y1 && x >= pop.x0 && x <= pop.x1 {
					continue
				}
				if f.rows[y][x] != ' ' {
					return fmt.Sprintf("locked screen shows %q", strings.TrimSpace(string(f.rows[y])))
				}
			}
		}
	case gsCats:
		var l []string
		for _, e := range m.cats {
			l = append(l, e.label)
		}
		if len(l) == 0 {
			for _, r := range f.inner(main) {
				if strings.TrimSpace(r) != "" {
					return fmt.Sprintf("empty vault shows %q", r)
				}
			}
			return ""
		}
		return window(f, main, l, m.ci, true)
	case gsItems, gsDetails:
		var l []string
		for _, it := range m.items() {
			t := it.Title
			if t == "" {
				t = "<NO TITLE>"
			}
			t = strings.ReplaceAll(t, "\r\n", "\n") // one row for each item
			l = append(l, t)
		}
		if s := window(f, items, l, m.ii, false); s != "" {
			return "item list: " + s
		}
		if s := m.settle(func(it *VItem) string { return pane(f, det, it, m.state == gsItems, m.ox, m.oy) }); s != "" {
			return "details pane: " + s
		}
	}
	return ""
}

// settle checks the item at the highlighted place. Items equal in category and title may stand in any order, but each
// of them at one place only.
func (m *model) settle(ok func(*VItem) string) string {
	items := m.items()
	s := ok(items[m.ii])
	if m.fixed[m.ii] {
		return s
	}
	others := 0
	for j, it := range items {
		if j == m.ii || m.fixed[j] || it.Cat != items[m.ii].Cat || it.Title != items[m.ii].Title || ok(it) != "" {
			continue
		}
		if s != "" {
			items[m.ii], items[j] = items[j], items[m.ii]
			s = ""
			continue
		}
		others++
	}
	if s == "" && others == 0 {
		m.fixed[m.ii] = true
	}
	return s
}

// idleKey is a key without a meaning anywhere in the program.
func idleKey(r *rand.Rand) gkey {
	ks := []int{kEsc, kF1, kHome, kPgDn}
	for k := 0x01; k <= 0x1A; k++ { // Ctrl+A to Ctrl+Z
		switch k {
		case 0x08, kTab, kEnter, kCtrlL, kCtrlQ, 0x03, 0x0A, 0x1A:
		default:
			ks = append(ks, k)
		}
	}
	for k := 1; k < 12; k++ { // F2 to F12
		ks = append(ks, kF1-k)
	}
	return gkey{Key: ks[r.Intn(len(ks))]}
}

// randKey draws a key that is interesting in the model's state.
func (m *model) randKey(r *rand.Rand) gkey {
	mv := func() gkey {
		return []gkey{ch('j'), ch('j'), ch('j'), ch('k'), {Key: kDown}, {Key: kUp}}[r.Intn(6)]
	}
	if r.Intn(12) == 0 { // anything
		all := []gkey{ch('j'), ch('k'), ch('h'), ch('l'), ch('q'), ch('x'), {Key: kEnter}, {Key: kTab}, {Key: kUp}, {Key: kDown}, {Key: kLeft},
			{Key: kRight}, {Key: kEsc}, {Key: kF1}, {Key: kHome}, {Key: kPgDn}, {Key: kCtrlL}, {Key: kSpace}, ch('Q'), ch('é'), idleKey(r), idleKey(r), idleKey(r)}
		k := all[r.Intn(len(all))]
		if m.state == gsPrompt && (k.Key == kUp || k.Key == kDown || k.Key == kLeft || k.Key == kRight) && k.Ch == 0 {
			k = gkey{Key: kEsc}
		}
		return k
	}
	switch m.state {
	case gsPrompt:
		p := []rune(m.pass)
		if string(m.typed) == m.pass {
			if r.Intn(10) == 0 {
				return ch('z')
			}
			return gkey{Key: kEnter}
		}
		if len(m.typed) < len(p) && string(m.typed) == string(p[:len(m.typed)]) {
			if r.Intn(25) == 0 {
				return gkey{Key: kEnter}
			}
			return ch(p[len(m.typed)])
		}
		if r.Intn(3) == 0 {
			return gkey{Key: kEnter}
		}
		return gkey{Key: kBack}
	case gsError:
		return gkey{Key: kEnter}
	case gsCats:
		switch r.Intn(10) {
		case 0:
			return gkey{Key: kCtrlL}
		case 1, 2, 3:
			return []gkey{{Key: kEnter}, ch('l'), {Key: kRight}}[r.Intn(3)]
		}
		return mv()
	case gsItems:
		switch r.Intn(14) {
		case 0:
			return gkey{Key: kCtrlL}
		case 1, 2:
			return []gkey{ch('q'), ch('h'), {Key: kLeft}}[r.Intn(3)]
		case 3, 4:
			return gkey{Key: kTab}
		}
		return mv()
	default:
		switch r.Intn(12) {
		case 0:
			return gkey{Key: kCtrlL}
		case 1, 2, 3:
			return gkey{Key: kTab}
		case 4, 5:
			return []gkey{ch('l'), {Key: kRight}, ch('h'), {Key: kLeft}}[r.Intn(4)]
		}
		return mv()
	}
}

// verLine is the text of the version box.
func (f *frame) verLine() string {
	b := f.box("Version")
	if b == nil {
		return ""
	}
	return strings.TrimRight(strings.Join(f.inner(b), " "), " ")
}

func outcomes(line string) int {
	return strings.Count(line, "up to date") + strings.Count(line, "new version is available") + strings.Count(line, "update check failed")
}

// outcome waits until the version line shows how the update check ended.
func (g *gui) outcome(sec int) string {
	f := g.wait(time.Duration(sec)*time.Second, func(f *frame) bool { return outcomes(f.verLine()) > 0 })
	if f == nil {
		return ""
	}
	return f.verLine()
}
