package main

// Systematic schedules and crash points at SQL statement granularity.

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

// zzStop parks a node at its k-th statement until released.
type zzStop struct {
	at      int64
	hit     chan struct{}
	release chan struct{}
	once    sync.Once
	cnt     int64
	after   bool // park after the statement took effect instead of before
	kinds   string
}

func (n *zzNode) stopAt(k int64) *zzStop {
	s := &zzStop{at: k, hit: make(chan struct{}), release: make(chan struct{})}
	n.inst.Gate = func(si *pgsim.StmtInfo) error {
		if atomic.AddInt64(&s.cnt, 1) == s.at {
			close(s.hit)
			<-s.release
		}
		return nil
	}
	return s
}

func (s *zzStop) go_() { s.once.Do(func() { close(s.release) }) }

// waitIdle waits until done is closed or the node has made no SQL progress for
// a while (it is waiting for a lock).
func zzWaitIdle(n *zzNode, done <-chan struct{}) bool {
	last, since := n.inst.Stmts(), time.Now()
	for {
		select {
		case <-done:
			return true
		case <-time.After(time.Millisecond):
		}
		if c := n.inst.Stmts(); c != last {
			last, since = c, time.Now()
		} else if time.Since(since) > 10*time.Millisecond {
			return false
		}
	}
}

// zzScn is one concrete scenario: a prepared world and the operations to race.
type zzScn struct {
	r   *zzRun
	ns  []*zzNode
	ops []func()
	fin func() // runs after all operations (drain, retry ...)
	ext zzM    // facts for the final event
}

type zzMk func() *zzScn

func (s *zzScn) finish() {
	if s.fin != nil {
		s.fin()
	}
	ext := s.ext
	if ext == nil {
		ext = zzM{}
	}
	s.r.t.Final(ext)
}

func zzGo(f func()) chan struct{} {
	d := make(chan struct{})
	go func() {
		defer close(d)
		f()
	}()
	return d
}

func zzWaitDone(d chan struct{}, what string) bool {
	select {
	case <-d:
		return true
	case <-time.After(20 * time.Second):
		fmt.Println("ZZ-STUCK", what)
		return false
	}
}

// countStmts runs op i alone and reports how many statements it issues.
func zzCount(mk zzMk, i int) int64 {
	s := mk()
	defer s.r.w.Close()
	s.ns[i].inst.ResetCount()
	s.ops[i]()
	return s.ns[i].inst.Stmts()
}

// zzSched1: op a runs to its k-th statement, then b runs until it finishes or
// waits, then a finishes.  With expire, every TTL runs out while a is parked.
func zzSched1(mk zzMk, a, b int, k int64, expire bool) *zzScn {
	s := mk()
	st := s.ns[a].stopAt(k)
	da := zzGo(s.ops[a])
	select {
	case <-st.hit:
	case <-da:
	}
	if expire {
		s.r.w.mr.FastForward(10 * time.Minute)
	}
	db := zzGo(s.ops[b])
	zzWaitIdle(s.ns[b], db)
	st.go_()
	zzWaitDone(da, "a")
	zzWaitDone(db, "b")
	s.finish()
	return s
}

// zzSched2: a to k, b to j, a to the end, b to the end.
func zzSched2(mk zzMk, a, b int, k, j int64, expire bool) *zzScn {
	s := mk()
	sa := s.ns[a].stopAt(k)
	da := zzGo(s.ops[a])
	select {
	case <-sa.hit:
	case <-da:
	}
	if expire {
		s.r.w.mr.FastForward(10 * time.Minute)
	}
	sb := s.ns[b].stopAt(j)
	db := zzGo(s.ops[b])
	select {
	case <-sb.hit:
	case <-db:
	case <-time.After(25 * time.Millisecond):
	}
	if expire {
		s.r.w.mr.FastForward(10 * time.Minute)
	}
	sa.go_()
	zzWaitIdle(s.ns[a], da)
	sb.go_()
	zzWaitDone(da, "a")
	zzWaitDone(db, "b")
	s.finish()
	return s
}

// zzSched3: a parks at k, b parks at j, c runs, then b, then a.
func zzSched3(mk zzMk, k, j int64, expire bool) *zzScn {
	s := mk()
	park := func(i int, at int64) (*zzStop, chan struct{}) {
		st := s.ns[i].stopAt(at)
		d := zzGo(s.ops[i])
		select {
		case <-st.hit:
		case <-d:
		case <-time.After(25 * time.Millisecond):
		}
		if expire {
			s.r.w.mr.FastForward(10 * time.Minute)
		}
		return st, d
	}
	sa, da := park(0, k)
	sb, db := park(1, j)
	dc := zzGo(s.ops[2])
	zzWaitIdle(s.ns[2], dc)
	sb.go_()
	zzWaitIdle(s.ns[1], db)
	sa.go_()
	zzWaitDone(da, "a")
	zzWaitDone(db, "b")
	zzWaitDone(dc, "c")
	s.finish()
	return s
}

// zzSettle waits until whatever is left of an interrupted operation has
// stopped talking to the stores.
func zzSettle(w *zzWorld) {
	last, since := -1, time.Now()
	for i := 0; i < 2000; i++ {
		if n := w.db.CommitCount() + w.mr.CommandCount(); n != last {
			last, since = n, time.Now()
		} else if time.Since(since) > 12*time.Millisecond {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

var errZZFault = errors.New("connection reset by peer")

// zzCrash: op i's process dies at its k-th statement; before (the statement
// never happens) or after (it took effect but nobody heard).  Locks expire.
func zzCrash(mk zzMk, i int, k int64, after bool) (*zzScn, bool) {
	s := mk()
	n := s.ns[i]
	hit := make(chan struct{})
	var cnt int64
	var once sync.Once
	kill := func() { once.Do(func() { n.inst.Kill(); close(hit) }) }
	if after {
		n.inst.After = func(si *pgsim.StmtInfo, err error) error {
			if atomic.AddInt64(&cnt, 1) == k {
				kill()
			}
			return err
		}
	} else {
		n.inst.Gate = func(si *pgsim.StmtInfo) error {
			if atomic.AddInt64(&cnt, 1) == k {
				kill()
			}
			return nil
		}
	}
	d := zzGo(s.ops[i])
	crashed := false
	select {
	case <-hit:
		crashed = true
		s.r.t.Emit(zzM{"e": "crash", "op": s.r.t.label[n.name]})
	case <-d:
	}
	zzSettle(s.r.w)
	s.r.w.mr.FastForward(10 * time.Minute)
	s.finish()
	return s, crashed
}

// zzFault: the k-th statement of op i fails; sticky makes all later ones of
// the same operation fail as well.
func zzFault(mk zzMk, i int, k int64, after, sticky bool) (*zzScn, bool) {
	s := mk()
	n := s.ns[i]
	var cnt int64
	did := false
	f := func(si *pgsim.StmtInfo) error {
		c := atomic.AddInt64(&cnt, 1)
		if c == k || (sticky && c > k) {
			did = true
			return errZZFault
		}
		return nil
	}
	if after {
		n.inst.After = func(si *pgsim.StmtInfo, err error) error {
			if e := f(si); e != nil {
				return e
			}
			return err
		}
	} else {
		n.inst.Gate = f
	}
	d := zzGo(s.ops[i])
	zzWaitDone(d, "fault")
	n.inst.Gate, n.inst.After = nil, nil
	zzSettle(s.r.w)
	s.r.w.mr.FastForward(10 * time.Minute) // locks that were left behind run out
	s.finish()
	return s, did
}
