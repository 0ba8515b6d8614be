package main

// Running the program under the monitors: on a pseudo terminal, on pipes, or through the facade driver.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type event struct {
	Seq, Count           int
	Op, Path, Extra, Dec string
}

func unesc(s string) string {
	if !strings.Contains(s, "\\") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 't':
				b.WriteByte('\t')
			case 'n':
				b.WriteByte('\n')
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func readEvents(path string) []event {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []event
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 6 {
			continue
		}
		a, _ := strconv.Atoi(f[0])
		b, _ := strconv.Atoi(f[1])
		out = append(out, event{a, b, f[2], unesc(f[3]), unesc(f[4]), f[5]})
	}
	return out
}

func evStrings(evs []event, keep func(event) bool) []string {
	var out []string
	for _, e := range evs {
		if keep == nil || keep(e) {
			out = append(out, fmt.Sprintf("%s %s [%s] %s", e.Op, e.Path, firstN(e.Extra, 120), e.Dec))
		}
	}
	return out
}

// step is one exchange of a terminal dialogue: wait for the text (if any), wait until the terminal stopped echoing (if
// asked), then send.
type step struct {
	expect string
	noEcho bool
	send   string
	maybe  bool // the program may also end instead
	delay  time.Duration
	sig    syscall.Signal // sent to the program
	size   [2]int         // new columns and rows of the terminal
	call   func()         // done before anything is sent
}

type runOpts struct {
	bin     string
	argv0   string // name the program is started by, if not its path
	args    []string
	home    string
	dir     string // working directory
	env     []string
	steps   []step
	timeout time.Duration
	allow   []string
	dial    string
	remap   string
	fault   string
	scope   []string
	reads   bool
	logData bool
	noEvlog bool
	pipe    bool // stdin from a pipe with the concatenated sends, then end of input
	w, h    int
	nohome  bool
	termios func(*syscall.Termios) // changes the settings of the terminal before the run
	bare    bool                   // no file monitor, whose own locks would order the threads; only the network map
}

type result struct {
	Out     string // everything the program printed, as seen on the terminal
	Raw     string
	Code    int
	Killed  bool // ended by a signal
	Timeout bool
	Stuck   string // expectation that never showed
	Events  []event
	Wall    time.Duration
	Asked   bool // 'Password:' was printed
	// settings of the terminal
	TermBefore, TermAfter *syscall.Termios
}

func (r *result) brief() map[string]any {
	return map[string]any{"exit": r.Code, "killed": r.Killed, "timeout": r.Timeout, "stuck": r.Stuck, "output": firstN(r.Out, 4000)}
}

func (r *result) crashed() bool {
	return r.Killed || r.Code == 2 && strings.Contains(r.Out, "goroutine ") || strings.Contains(r.Out, "panic:") && strings.Contains(r.Out, "goroutine ")
}

func (r *result) dials() []event {
	var out []event
	for _, e := range r.Events {
		if e.Op == "dial" {
			out = append(out, e)
		}
	}
	return out
}

var baseEnv = []string{"PATH=/usr/bin:/bin", "TERM=xterm", "TZ=UTC", "LANG=C.UTF-8", "GOTRACEBACK=all"}

func (c *Ctx) monEnv(o *runOpts, evlog string) []string {
	env := append([]string{}, baseEnv...)
	if !o.nohome {
		env = append(env, "HOME="+o.home)
	}
	if o.bare {
		return append(append(env, "VERIF_DIAL="+o.dialMap()), o.env...)
	}
	if evlog != "" {
		env = append(env, "VERIF_EVLOG="+evlog)
	}
	if o.allow != nil {
		env = append(env, "VERIF_ALLOW="+strings.Join(o.allow, ":"))
	}
	env = append(env, "VERIF_DIAL="+o.dialMap())
	remap := o.remap
	if remap == "" {
		remap = "/tmp/1pass=" + filepath.Join(o.home, "cache-1pass")
	}
	env = append(env, "VERIF_REMAP="+remap)
	if o.fault != "" {
		env = append(env, "VERIF_FAULT="+o.fault)
	}
	if o.scope != nil {
		env = append(env, "VERIF_FAULT_SCOPE="+strings.Join(o.scope, ":"))
	}
	if o.reads {
		env = append(env, "VERIF_FAULT_READS=1")
	}
	if o.logData {
		env = append(env, "VERIF_LOGDATA=1")
	}
	return append(env, o.env...)
}

func (o *runOpts) dialMap() string {
	if o.dial == "" {
		return "*=refuse"
	}
	return o.dial
}

var evSeq struct {
	sync.Mutex
	n int
}

func (c *Ctx) evlogPath() string {
	evSeq.Lock()
	evSeq.n++
	p := filepath.Join(c.Scratch, fmt.Sprintf("ev%d.log", evSeq.n))
	evSeq.Unlock()
	os.WriteFile(p, nil, 0666)
	os.Chmod(p, 0666)
	return p
}

type pty struct {
	m *os.File
	s string
}

func ioctl(fd uintptr, req, arg uintptr) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg)
	if e != 0 {
		return e
	}
	return nil
}

func openPty() (*os.File, *os.File, error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	var n uint32
	var zero int32
	if err := ioctl(uintptr(fd), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); err != nil {
		return nil, nil, err
	}
	if err := ioctl(uintptr(fd), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err != nil {
		return nil, nil, err
	}
	name := fmt.Sprintf("/dev/pts/%d", n)
	sfd, err := syscall.Open(name, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		syscall.Close(fd)
		return nil, nil, err
	}
	syscall.SetNonblock(fd, true)
	return os.NewFile(uintptr(fd), "ptm"), os.NewFile(uintptr(sfd), name), nil
}

func getTermios(fd uintptr) *syscall.Termios {
	var t syscall.Termios
	if err := ioctl(fd, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); err != nil {
		infra("terminal: %v", err)
	}
	return &t
}

func ptyEcho(fd uintptr) bool {
	var t syscall.Termios
	if err := ioctl(fd, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); err != nil {
		return true
	}
	return t.Lflag&syscall.ECHO != 0
}

// run executes the program once and plays the dialogue.
func (c *Ctx) run(o runOpts) *result {
	if o.timeout == 0 {
		o.timeout = 60 * time.Second
	}
	evlog := ""
	if !o.noEvlog {
		evlog = c.evlogPath()
		defer os.Remove(evlog)
	}
	cmd := exec.Command(o.bin, o.args...)
	if o.argv0 != "" {
		cmd.Args[0] = o.argv0
	}
	cmd.Env = c.monEnv(&o, evlog)
	cmd.Dir = o.dir
	if cmd.Dir == "" {
		cmd.Dir = o.home
	}
	start := running()
	var r *result
	if o.pipe {
		r = c.runPipe(cmd, &o)
	} else {
		r = c.runPty(cmd, &o)
	}
	r.Wall = running() - start
	if evlog != "" {
		r.Events = readEvents(evlog)
	}
	r.Out = strings.ReplaceAll(r.Raw, "\r\n", "\n")
	r.Asked = strings.Contains(r.Out, "Password:")
	return r
}

func finish(err error, r *result) {
	r.Code = 0
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				r.Killed = true
				r.Code = 128 + int(ws.Signal())
			} else {
				r.Code = ws.ExitStatus()
			}
		} else {
			infra("run: %v", err)
		}
	}
}

func (c *Ctx) runPipe(cmd *exec.Cmd, o *runOpts) *result {
	r := &result{}
	var in strings.Builder
	for _, s := range o.steps {
		in.WriteString(s.send)
	}
	cmd.Stdin = strings.NewReader(in.String())
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: c.cred()}
	if err := cmd.Start(); err != nil {
		infra("start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	late, stop := after(o.timeout)
	defer stop()
	select {
	case err = <-done:
	case <-late:
		r.Timeout = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	finish(err, r)
	r.Raw = out.String()
	return r
}

func (c *Ctx) runPty(cmd *exec.Cmd, o *runOpts) *result {
	r := &result{}
	m, s, err := openPty()
	if err != nil {
		infra("pty: %v", err)
	}
	defer m.Close()
	w, h := o.w, o.h
	if w == 0 {
		w, h = 200, 50
	}
	setSize := func(fd uintptr, w, h int) {
		ws := struct{ r, c, x, y uint16 }{uint16(h), uint16(w), 0, 0}
		ioctl(fd, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	}
	setSize(s.Fd(), w, h)
	if o.termios != nil {
		t := getTermios(s.Fd())
		o.termios(t)
		if err := ioctl(s.Fd(), syscall.TCSETS, uintptr(unsafe.Pointer(t))); err != nil {
			infra("terminal: %v", err)
		}
	}
	var sess *sessionOf
	if o.termios != nil {
		sess = newSession(cmd, c.Uid)
		defer sess.rd.Close()
	}
	r.TermBefore = getTermios(s.Fd())
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if sess == nil {
		cmd.SysProcAttr.Credential = c.cred()
	}
	if c.Uid != 0 { // the program reopens its terminal by name in GUI mode
		os.Chown(s.Name(), c.Uid, c.Uid)
	}
	if err := cmd.Start(); err != nil {
		s.Close()
		infra("start: %v", err)
	}
	s.Close()
	if sess != nil {
		sess.started()
	}
	var mu sync.Mutex
	var buf bytes.Buffer
	more := make(chan struct{}, 1)
	readDone := make(chan struct{})
	go func() {
		defer close(readDone)
		b := make([]byte, 65536)
		for {
			n, err := m.Read(b)
			if n > 0 {
				mu.Lock()
				buf.Write(b[:n])
				mu.Unlock()
				select {
				case more <- struct{}{}:
				default:
				}
			}
			if err != nil {
				return
			}
		}
	}()
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	deadline := running() + o.timeout
	pos := 0
	gone := false
	var werr error
	rc, _ := m.SyscallConn()
	echo := func() bool {
		e := true
		rc.Control(func(fd uintptr) { e = ptyEcho(fd) })
		return e
	}
steps:
	for _, st := range o.steps {
		for st.expect != "" {
			mu.Lock()
			i := strings.Index(buf.String()[pos:], st.expect)
			if i >= 0 {
				pos += i + len(st.expect)
			}
			mu.Unlock()
			if i >= 0 {
				break
			}
			if gone && st.maybe {
				break steps
			}
			if gone || running() > deadline {
				r.Stuck = st.expect
				break steps
			}
			select {
			case <-more:
			case werr = <-exited:
				gone = true
				select { // let the reader drain
				case <-readDone:
				case <-time.After(2 * time.Second):
				}
			case <-time.After(200 * time.Millisecond):
			}
		}
		for st.noEcho && echo() {
			if gone && st.maybe {
				break steps
			}
			if gone || running() > deadline {
				r.Stuck = "echo off"
				break steps
			}
			select {
			case werr = <-exited:
				gone = true
			case <-time.After(500 * time.Microsecond):
			}
		}
		if st.delay > 0 {
			time.Sleep(st.delay)
		}
		if st.call != nil {
			st.call()
		}
		if st.size != [2]int{} && !gone {
			rc.Control(func(fd uintptr) { setSize(fd, st.size[0], st.size[1]) })
		}
		if st.sig != 0 && !gone {
			syscall.Kill(sess.pid, st.sig)
		}
		if st.send != "" && !gone {
			m.Write([]byte(st.send))
		}
	}
	if !gone {
		late, stop := after(deadline - running())
		defer stop()
		select {
		case werr = <-exited:
		case <-late:
			r.Timeout = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-exited
		}
	}
	finish(werr, r)
	if sess != nil {
		o := sess.outcome()
		r.TermAfter, r.Code, r.Killed = o.After, o.Code, o.Killed
	}
	select {
	case <-readDone:
	case <-time.After(3 * time.Second):
	}
	mu.Lock()
	r.Raw = buf.String()
	mu.Unlock()
	return r
}

// A terminal forgets its settings when the leader of its session ends, so a program whose terminal is examined runs below
// a leader of its own (this program, 'vp -session'), as it would below a shell.
type sessionOf struct {
	rd, wr *os.File
	in     *bufio.Reader
	pid    int
}

type sessionEnd struct {
	Code   int
	Killed bool
	After  *syscall.Termios
}

func newSession(cmd *exec.Cmd, uid int) *sessionOf {
	rd, wr, err := os.Pipe()
	if err != nil {
		infra("pipe: %v", err)
	}
	self, err := os.Executable()
	if err != nil {
		infra("own path: %v", err)
	}
	cmd.Args = append([]string{self, "-session", strconv.Itoa(uid), cmd.Path}, cmd.Args[1:]...)
	cmd.Path = self
	cmd.ExtraFiles = []*os.File{wr}
	return &sessionOf{rd: rd, wr: wr, in: bufio.NewReader(rd)}
}

func (s *sessionOf) started() {
	s.wr.Close()
	if _, err := fmt.Fscanln(s.in, &s.pid); err != nil || s.pid <= 0 {
		infra("session: no process id: %v", err)
	}
}

func (s *sessionOf) outcome() *sessionEnd {
	e := &sessionEnd{}
	line, err := s.in.ReadBytes('\n')
	if err != nil { // killed after the time limit
		return &sessionEnd{Code: 137, Killed: true, After: &syscall.Termios{}}
	}
	if err := json.Unmarshal(line, e); err != nil {
		infra("session: %v", err)
	}
	return e
}

// session runs as the leader: it starts the program, waits for it and reports the settings it leaves.
func session(args []string) int {
	signal.Notify(make(chan os.Signal, 100), syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT, syscall.SIGTSTP)
	rep := os.NewFile(3, "report")
	syscall.CloseOnExec(3)
	uid, _ := strconv.Atoi(args[0])
	cmd := exec.Command(args[1], args[2:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	if uid != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid), NoSetGroups: true}}
	}
	if err := cmd.Start(); err != nil {
		return 2
	}
	fmt.Fprintln(rep, cmd.Process.Pid)
	r := &result{}
	finish(cmd.Wait(), r)
	json.NewEncoder(rep).Encode(sessionEnd{r.Code, r.Killed, getTermios(0)})
	return 0
}

func pw(password string) step { return step{expect: "Password:", noEcho: true, send: password + "\n"} }

// ---- facade driver ----

type dItem struct {
	Uid, Cat, CatName, Title, Url, Notes string
	Trashed                              bool
	Created, Updated                     int64
	Sections                             []struct {
		Title  string
		Fields []struct{ Name, Value string }
	}
}

type dResp struct {
	Err     string
	Panic   string
	Nil     bool
	Bool    bool
	Count   int
	Items   []dItem
	Item    *dItem
	Stages  []int
	Timeout int
	Notify  bool
	Period  int
	Vault   string
	Info    *struct {
		Archive, Changelog, Checksum, Version string
		Newer                                 bool
	}
	BadCat bool
	Dead   bool `json:"-"` // the process ended instead of answering
	Died   string
}

type driver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	rd     *os.File
	stderr *lockBuf
	evlog  string
	dead   bool
	c      *Ctx
}

func (c *Ctx) driver(o runOpts) *driver {
	d := &driver{c: c, stderr: &lockBuf{}}
	d.evlog = c.evlogPath()
	bin := o.bin
	if bin == "" {
		bin = c.B.get("driver")
	}
	cmd := exec.Command(bin)
	cmd.Env = c.monEnv(&o, d.evlog)
	cmd.Dir = o.home
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: c.cred()}
	in, err := cmd.StdinPipe()
	if err != nil {
		infra("driver: %v", err)
	}
	rd, wr, err := os.Pipe()
	if err != nil {
		infra("driver: %v", err)
	}
	cmd.ExtraFiles = []*os.File{wr}
	cmd.Stdout, cmd.Stderr = d.stderr, d.stderr
	if err := cmd.Start(); err != nil {
		infra("driver: %v", err)
	}
	wr.Close()
	d.cmd, d.in, d.rd, d.out = cmd, in, rd, bufio.NewReaderSize(rd, 1<<20)
	return d
}

func (d *driver) call(q map[string]any) *dResp {
	r := &dResp{}
	if d.dead {
		r.Dead = true
		return r
	}
	b, _ := json.Marshal(q)
	d.in.Write(append(b, '\n'))
	late, stop := after(90 * time.Second)
	defer stop()
	answered := make(chan struct{})
	go func() {
		select {
		case <-late:
			d.rd.SetReadDeadline(time.Now())
		case <-answered:
		}
	}()
	line, err := d.out.ReadBytes('\n')
	close(answered)
	if err != nil {
		syscall.Kill(-d.cmd.Process.Pid, syscall.SIGKILL)
		d.cmd.Wait()
		d.dead = true
		r.Dead, r.Died = true, firstN(d.stderr.String(), 3000)
		if os.IsTimeout(err) {
			r.Died = "no answer within 90 s: " + r.Died
		}
		return r
	}
	if err := json.Unmarshal(line, r); err != nil {
		infra("driver reply: %v", err)
	}
	return r
}

func (d *driver) bad(r *dResp) string {
	if r.Dead {
		return "the program ended: " + r.Died
	}
	if r.Panic != "" {
		return "panic: " + firstN(r.Panic, 1500)
	}
	return ""
}

func (d *driver) events() []event { return readEvents(d.evlog) }

func (d *driver) close() {
	if !d.dead {
		d.in.Close()
		done := make(chan struct{})
		go func() { d.cmd.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			syscall.Kill(-d.cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
	}
	d.rd.Close()
	os.Remove(d.evlog)
}

// ---- file trees ----

// snapshot describes every entry under root: type, mode, content, link target.
func snapshot(root string) map[string]string {
	out := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		if err != nil {
			out[rel] = "error " + err.Error()
			return nil
		}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			out[rel] = "link " + t
		case fi.IsDir():
			out[rel] = "dir " + fi.Mode().String()
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				out[rel] = "unreadable " + fi.Mode().String()
			} else {
				out[rel] = fmt.Sprintf("file %s %d %x", fi.Mode(), len(b), md5sum(b))
			}
		}
		return nil
	})
	return out
}

func diffSnap(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "gone: "+k)
		} else if w != v {
			out = append(out, "changed: "+k+": "+v+" -> "+w)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "new: "+k+": "+v)
		}
	}
	return out
}

func copyFile(src, dst string, mode os.FileMode) {
	b, err := os.ReadFile(src)
	if err != nil {
		infra("copy: %v", err)
	}
	syscall.ForkLock.RLock() // a child forked meanwhile would keep the file busy
	err = os.WriteFile(dst, b, mode)
	syscall.ForkLock.RUnlock()
	if err != nil {
		infra("copy: %v", err)
	}
	os.Chmod(dst, mode)
}
