package checks

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
)

// flaky delivers data in odd pieces and may fail at an offset.
type flaky struct {
	data     []byte
	pos      int
	r        *rand.Rand
	mode     int // 0 all, 1 single bytes, 2 random pieces, 3 random with empty reads, 4 half buffers
	failAt   int // -1: never
	err      error
	together bool // the error (or EOF) comes along with the last data
	zeros    int
	Reads    int
	Failed   bool
}

var errInjected = errors.New("injected fault")

func (f *flaky) end() int {
	if f.failAt >= 0 && f.failAt < len(f.data) {
		return f.failAt
	}
	return len(f.data)
}

func (f *flaky) final() error {
	if f.failAt >= 0 {
		f.Failed = true
		return f.err
	}
	return io.EOF
}

func (f *flaky) Read(p []byte) (int, error) {
	f.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	left := f.end() - f.pos
	if left == 0 {
		return 0, f.final()
	}
	n := len(p)
	switch f.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + f.r.Intn(40)
	case 3:
		if f.zeros < 3 && f.r.Intn(4) == 0 {
			f.zeros++
			return 0, nil
		}
		f.zeros = 0
		n = 1 + f.r.Intn(300)
	case 4:
		n = len(p)/2 + 1
	}
	if n > len(p) {
		n = len(p)
	}
	if n > left {
		n = left
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.together && f.pos == f.end() {
		return n, f.final()
	}
	return n, nil
}

func (f *flaky) String() string {
	return fmt.Sprintf("reader mode %d failing at %d of %d bytes with %v (together %v)", f.mode, f.failAt, len(f.data), f.err, f.together)
}

func (g *gen) flaky(data []byte, failAt int) *flaky {
	errs := []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("read failed: %w", io.EOF), io.ErrNoProgress, io.ErrShortBuffer}
	return &flaky{data: data, r: g.r, mode: g.r.Intn(5), failAt: failAt, err: errs[g.r.Intn(len(errs))], together: g.p(40)}
}

// faultyWriter accepts a number of bytes and then fails.
type faultyWriter struct {
	limit    int // bytes accepted before failing; -1: never fails
	mode     int // 0 nothing of the failing write, 1 a part of it, 2 all of it but an error, 3 a part of it and no error
	err      error
	got      []byte
	failed   bool
	after    int // bytes offered after the failure
	maxChunk int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after += len(p)
		if w.mode == 3 {
			return len(p), nil
		}
		return 0, w.err
	}
	if w.limit >= 0 && (len(w.got)+len(p) > w.limit || (w.mode == 2 && len(w.got)+len(p) >= w.limit)) {
		w.failed = true
		n := 0
		switch w.mode {
		case 1, 3:
			n = w.limit - len(w.got)
		case 2:
			n = len(p)
		}
		w.got = append(w.got, p[:n]...)
		if w.mode == 3 {
			return n, nil
		}
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}
