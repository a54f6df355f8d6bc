// Package ysync is package sync with locks that, now and then, let other
// goroutines run before they are taken and after they are released. The driver
// for C19 is built with it in the place of sync in the code under test.
package ysync

import (
	"runtime"
	"sync"
)

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

var count uint32

// yield must not synchronize.
//
//go:norace
func yield() {
	count++
	if (count*2654435761)>>30 == 0 {
		runtime.Gosched()
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { yield(); m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); yield() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()           { yield(); m.m.Lock() }
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock(); yield() }
func (m *RWMutex) RLock()          { yield(); m.m.RLock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock(); yield() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }
