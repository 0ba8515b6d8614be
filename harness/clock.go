package main

import (
	"sync/atomic"
	"time"
)

// Time limits are measured in time during which this machine was really
// running: a suspended or starved sandbox must not look like a hanging program.

var ranFor atomic.Int64

func init() {
	go func() {
		last := time.Now()
		for {
			time.Sleep(5 * time.Millisecond)
			now := time.Now()
			ranFor.Add(int64(min(now.Sub(last), 25*time.Millisecond)))
			last = now
		}
	}()
}

func running() time.Duration { return time.Duration(ranFor.Load()) }

// after is time.After in running time; stop releases it early.
func after(d time.Duration) (fired <-chan struct{}, stop func()) {
	end := running() + d
	ch, quit := make(chan struct{}), make(chan struct{})
	go func() {
		t := time.NewTicker(20 * time.Millisecond)
		defer t.Stop()
		for running() < end {
			select {
			case <-quit:
				return
			case <-t.C:
			}
		}
		close(ch)
	}()
	return ch, func() { close(quit) }
}
