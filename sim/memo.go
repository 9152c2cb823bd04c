package main

import "sync"

// A memo computes each value once.
type memo struct {
	mu sync.Mutex
	m  map[string]*memoEntry
}

type memoEntry struct {
	once sync.Once
	v    interface{}
	fail interface{}
}

func newMemo() *memo { return &memo{m: make(map[string]*memoEntry)} }

func (m *memo) get(key string, f func() interface{}) interface{} {
	m.mu.Lock()
	e := m.m[key]
	if e == nil {
		e = new(memoEntry)
		m.m[key] = e
	}
	m.mu.Unlock()
	e.once.Do(func() {
		defer func() { e.fail = recover() }()
		e.v = f()
	})
	if e.fail != nil {
		panic(e.fail)
	}
	return e.v
}
