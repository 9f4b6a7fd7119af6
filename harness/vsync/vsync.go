// Package vsync replaces the locks of the code under test by locks that the
// scheduler of the harness knows about.
package vsync

import "sync"

// Hook is told about what is about to happen on a lock ("lock", "rlock") and
// what has happened ("unlock", "runlock"). It may block.
var Hook func(kind string, key any)

func point(kind string, key any) {
	if h := Hook; h != nil {
		h(kind, key)
	}
}

// Mutex is a sync.Mutex with hooks.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { point("lock", m); m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); point("unlock", m) }
func (m *Mutex) TryLock() bool { point("op", m); return m.m.TryLock() }

// RWMutex is a sync.RWMutex with hooks.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()                { point("lock", m); m.m.Lock() }
func (m *RWMutex) Unlock()              { m.m.Unlock(); point("unlock", m) }
func (m *RWMutex) RLock()               { point("rlock", m); m.m.RLock() }
func (m *RWMutex) RUnlock()             { m.m.RUnlock(); point("runlock", m) }
func (m *RWMutex) TryLock() bool        { point("op", m); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool       { point("op", m); return m.m.TryRLock() }
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }
