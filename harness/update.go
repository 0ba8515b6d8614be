package main

// Releases as the fake GitHub publishes them, and installed copies of the program that update from it.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// pub is one published release: what the server says and what it serves.
type pub struct {
	rel      rel
	bin      []byte // the new program
	archive  []byte
	sum      []byte
	redirect bool
	others   []rel            // further entries of the release list, each with a program of its own
	over     map[string]reply // replies by kind: releases1, releases2, archive, sum
}

// newProgram is a runnable stand-in for a new version, padded so that it takes several writes.
func newProgram(r *rand.Rand, tag string, size int) []byte {
	b := []byte("#!/bin/sh\necho \"=== " + tag + " ===\"\nexit 0\n")
	pad := make([]byte, size)
	r.Read(pad)
	return append(b, pad...)
}

func newPub(r *rand.Rand, tag string, size int) *pub {
	p := &pub{rel: newRel(tag), others: []rel{newRel("1.0.0")}, bin: newProgram(r, tag, size), over: map[string]reply{}}
	p.archive = tgz(tent{Name: "LICENSE", Body: []byte("free"), Mode: 0644}, tent{Name: "1pass", Body: p.bin})
	p.sum = []byte(fmt.Sprintf("%x  1pass\n", md5sum(p.bin)))
	return p
}

func (p *pub) kind(q reqRec, nRel int) string {
	switch {
	case strings.HasPrefix(q.Path, "/repos/"):
		return fmt.Sprintf("releases%d", nRel+1)
	case strings.HasSuffix(q.Path, ".tar.gz"):
		return "archive"
	case strings.HasSuffix(q.Path, ".md5"):
		return "sum"
	}
	return "other"
}

// hub serves the release.
func (c *Ctx) pubHub(p *pub) *fakeHub {
	nRel := make(chan int, 1)
	nRel <- 0
	return c.hub(func(q reqRec, n int) reply {
		k := <-nRel
		kind := p.kind(q, k)
		if strings.HasPrefix(kind, "releases") {
			k++
		}
		nRel <- k
		for _, o := range p.others { // an asset of another release
			if o.Tag != p.rel.Tag && strings.Contains(q.Path, "/download/"+o.Tag+"/") {
				bin := []byte("#!/bin/sh\necho the program of " + o.Tag + "\n")
				if kind == "archive" {
					return reply{body: tgz(tent{Name: "1pass", Body: bin})}
				}
				return reply{body: []byte(fmt.Sprintf("%x  1pass\n", md5sum(bin)))}
			}
		}
		moved := strings.HasPrefix(q.Path, "/moved")
		if p.redirect && !moved && (kind == "archive" || kind == "sum") {
			return reply{status: 302, header: map[string]string{"Location": "https://objects.githubusercontent.com/moved" + q.Path}}
		}
		if o, ok := p.over[kind]; ok {
			return o
		}
		switch kind {
		case "archive":
			return reply{body: p.archive, header: map[string]string{"Content-Type": "application/octet-stream"}}
		case "sum":
			return reply{body: p.sum, header: map[string]string{"Content-Type": "application/octet-stream"}}
		}
		if kind == "other" {
			return reply{body: []byte("something else")}
		}
		return reply{body: relJSON(append([]rel{p.rel}, p.others...)...)}
	})
}

// inst is an installed copy of the program.
type inst struct {
	exe  string
	old  []byte
	mode os.FileMode
}

var appBytes []byte

func (w *world) install(mode os.FileMode) *inst {
	d := filepath.Join(w.dir, "bin")
	os.MkdirAll(d, 0755)
	w.c.mu.Lock()
	if appBytes == nil {
		w.c.mu.Unlock()
		b, err := os.ReadFile(w.c.B.get("app"))
		if err != nil {
			infra("app: %v", err)
		}
		w.c.mu.Lock()
		appBytes = b
	}
	b := appBytes
	w.c.mu.Unlock()
	in := &inst{exe: filepath.Join(d, "1pass"), old: b, mode: mode}
	syscall.ForkLock.RLock() // a child forked while the file is open for writing would make it busy
	err := os.WriteFile(in.exe, b, mode)
	syscall.ForkLock.RUnlock()
	if err != nil {
		infra("install: %v", err)
	}
	os.Chmod(in.exe, mode)
	mustWrite(filepath.Join(d, "neighbour"), []byte("another program"))
	w.c.own(d)
	return in
}

// state of the executable: "old", "new", or what is wrong with it.
func (in *inst) state(want []byte) string {
	fi, err := os.Lstat(in.exe)
	if err != nil {
		return "the executable is gone: " + err.Error()
	}
	if !fi.Mode().IsRegular() {
		return "the executable is no longer a file: " + fi.Mode().String()
	}
	b, err := os.ReadFile(in.exe)
	if err != nil {
		return "the executable cannot be read: " + err.Error()
	}
	switch {
	case bytes.Equal(b, in.old):
		if fi.Mode() != in.mode {
			return fmt.Sprintf("old program with mode %v instead of %v", fi.Mode(), in.mode)
		}
		return "old"
	case want != nil && bytes.Equal(b, want):
		if fi.Mode()&in.mode&0111 != in.mode&0111 {
			return fmt.Sprintf("new program with mode %v, was %v", fi.Mode(), in.mode)
		}
		return "new"
	}
	return fmt.Sprintf("the executable has %d bytes that are neither the old (%d bytes) nor the new program (%d bytes)", len(b), len(in.old), len(want))
}

func (w *world) updateOpts(in *inst, h *fakeHub, answer string) runOpts {
	o := w.opts("update")
	o.bin = in.exe
	o.pipe = true
	o.dial = h.dial()
	o.env = w.c.tlsEnv()
	o.steps = []step{{send: answer}}
	return o
}

func claimsUpdate(out string) bool { return strings.Contains(out, "updated to version") }

// dressUp publishes the assets in another order and among others, and a longer list of releases.
func (p *pub) dressUp(r *rand.Rand) {
	base := dlBase + p.rel.Tag + "/"
	for _, n := range []string{"1pass.deb", "source.zip", "checksum.sha256", "1pass_amd64.rpm", "CHANGES.txt", "md5", "1pass.tar.xz"} {
		if r.Intn(5) == 0 {
			p.rel.Assets = append(p.rel.Assets, rasset{n, base + n})
		}
	}
	r.Shuffle(len(p.rel.Assets), func(i, j int) { p.rel.Assets[i], p.rel.Assets[j] = p.rel.Assets[j], p.rel.Assets[i] })
	p.others = nil
	for k := r.Intn(5); k > 0; k-- {
		o := newRel([]string{"1.0.0", "1.2.0", "0.9.1", "1.3.0", "9.9.9", "1.3.1-beta"}[r.Intn(6)])
		r.Shuffle(len(o.Assets), func(i, j int) { o.Assets[i], o.Assets[j] = o.Assets[j], o.Assets[i] })
		p.others = append(p.others, o)
	}
	if r.Intn(6) == 0 {
		p.others = append(p.others, olderRels(r)...)
	}
}
