// Package vtime is the clock the code under test reads in the harness.
package vtime

import (
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// shared is the clock of all processes that were given the same file.
var shared *int64

func init() {
	if p := os.Getenv("ZZVERIF_CLOCK"); p != "" {
		Share(p)
	}
}

// Share takes the clock from a file of 8 bytes, which holds nanoseconds since 1970.
func Share(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(8); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	shared = (*int64)(unsafe.Pointer(&b[0]))
}

var (
	mux  sync.Mutex
	now  time.Time
	real bool = true
)

// Set stops the clock at the given instant.
func Set(t time.Time) {
	if shared != nil {
		atomic.StoreInt64(shared, t.UnixNano())
		return
	}
	mux.Lock()
	now, real = t, false
	mux.Unlock()
}

// Advance moves the stopped clock.
func Advance(d time.Duration) {
	if shared != nil {
		atomic.AddInt64(shared, int64(d))
		return
	}
	mux.Lock()
	now = now.Add(d)
	mux.Unlock()
}

// Hook is called when the clock is read. It may block.
var Hook func()

// Now returns the current instant.
func Now() time.Time {
	if h := Hook; h != nil {
		h()
	}
	return Peek()
}

// Peek returns the current instant without calling the hook.
func Peek() time.Time {
	if shared != nil {
		return time.Unix(0, atomic.LoadInt64(shared))
	}
	mux.Lock()
	defer mux.Unlock()
	if real {
		return time.Now()
	}
	return now
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
