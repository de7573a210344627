package vlib

import "sync"

// Late is part of the message of a failure that is just that something did not
// happen in time. check.py has such a failure happen twice before it believes it.
const Late = "VERIF-LATE"

// Tail is a writer that remembers the last bytes that it got.
type Tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *Tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if n := len(t.buf); n > 4000 {
		t.buf = append([]byte(nil), t.buf[n-2000:]...)
	}
	return len(p), nil
}

func (t *Tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}
