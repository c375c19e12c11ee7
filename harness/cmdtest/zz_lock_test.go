package main

// Runs scripts of lock calls on several clients under a schedule of their
// Redis commands (spec/LockSched.tla) and records every change of the stored
// keys for spec/LockTrace.tla.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	redlock "github.com/blnkfinance/blnk/internal/lock"

	"github.com/alicebob/miniredis/v2"
	"github.com/redis/go-redis/v9"
)

func init() { zzModes["lock"] = zzModeLock }

const zzLockUnit = 10 * time.Second

type zzLockCall struct {
	K     string   `json:"k"`
	Keys  []string `json:"keys"`
	TTL   int      `json:"ttl"`
	Multi bool     `json:"multi"`
}

type zzLockProg struct {
	Scripts [][]zzLockCall `json:"scripts"`
	Sched   []struct {
		K string `json:"k"`
		C int    `json:"c"`
		N int    `json:"n"`
	} `json:"sched"`
}

type zzLockRun struct {
	mr  *miniredis.Miniredis
	mu  sync.Mutex
	out []zzM
	cl  []*zzLockClient
	old string
}

type zzLockClient struct {
	r      *zzLockRun
	name   string
	rc     *redis.Client
	script []zzLockCall
	next   int
	ctx    context.Context
	cancel context.CancelFunc
	dead   bool
	fault  bool
	parked chan struct{} // the client waits before a command
	goOn   chan struct{}
	done   chan zzM
	state  string // idle parked
}

var errZZRedis = errors.New("zz: redis did not answer")

func (c *zzLockClient) DialHook(next redis.DialHook) redis.DialHook {
	return func(ctx context.Context, network, addr string) (net.Conn, error) { return next(ctx, network, addr) }
}
func (c *zzLockClient) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		return c.around(ctx, func() error { return next(ctx, cmds) }, func(err error) {
			for _, x := range cmds {
				x.SetErr(err)
			}
		})
	}
}
func (c *zzLockClient) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		return c.around(ctx, func() error { return next(ctx, cmd) }, cmd.SetErr)
	}
}

func (c *zzLockClient) around(ctx context.Context, do func() error, set func(error)) error {
	c.parked <- struct{}{}
	<-c.goOn
	if err := ctx.Err(); err != nil {
		set(err)
		return err
	}
	if c.fault {
		c.fault = false
		c.r.emit(zzM{"e": "fault", "c": c.name})
		set(errZZRedis)
		return errZZRedis
	}
	err := do()
	c.r.store(c.name)
	return err
}

func (r *zzLockRun) emit(e zzM) {
	r.mu.Lock()
	r.out = append(r.out, e)
	r.mu.Unlock()
}

// store records the stored keys if they changed.
func (r *zzLockRun) store(who string) {
	m := zzM{}
	for _, k := range r.mr.Keys() {
		v, _ := r.mr.Get(k)
		m[k] = zzM{"v": v, "t": int((r.mr.TTL(k) + zzLockUnit - 1) / zzLockUnit)}
	}
	if s := zzJS(m); s != r.old {
		r.old = s
		r.emit(zzM{"e": "store", "c": who, "m": m})
	}
}

func (c *zzLockClient) call(k zzLockCall) {
	ctx := c.ctx
	c.r.emit(zzM{"e": "call", "c": c.name, "k": k.K, "keys": k.Keys, "ttl": k.TTL, "dead": c.dead})
	go func() {
		ttl := time.Duration(k.TTL) * zzLockUnit
		var err error
		m := redlock.NewMultiLocker(c.rc, k.Keys, c.name)
		s := redlock.NewLocker(c.rc, k.Keys[0], c.name)
		one := len(k.Keys) == 1 && !k.Multi
		switch k.K {
		case "lock":
			if one {
				err = s.Lock(ctx, ttl)
			} else {
				err = m.Lock(ctx, ttl)
			}
		case "wait", "short":
			d := time.Hour
			if k.K == "short" {
				d = 3 * time.Millisecond
			}
			if one {
				err = s.WaitLock(ctx, ttl, d)
			} else {
				err = m.WaitLock(ctx, ttl, d)
			}
		case "unlock":
			if one {
				err = s.Unlock(ctx)
			} else {
				err = m.Unlock(ctx)
			}
		case "extend":
			err = s.ExtendLock(ctx, ttl)
		}
		cls := "other"
		switch {
		case err == nil:
			cls = "ok"
		case errors.Is(err, redlock.ErrLockHeld):
			cls = "held"
		case errors.Is(err, redlock.ErrLockWaitTimeout):
			cls = "timeout"
		}
		c.done <- zzM{"e": "ret", "c": c.name, "ok": err == nil, "cls": cls}
	}()
	c.settle()
}

// settle waits until the client is parked before a command or has finished.
func (c *zzLockClient) settle() {
	select {
	case <-c.parked:
		c.state = "parked"
	case e := <-c.done:
		c.r.emit(e)
		c.state = "idle"
	case <-time.After(30 * time.Second):
		panic("ZZ-HARNESS lock client stuck")
	}
}

func (c *zzLockClient) step() bool {
	if c.state == "parked" {
		c.goOn <- struct{}{}
		c.settle()
		return true
	}
	if c.next < len(c.script) {
		k := c.script[c.next]
		c.next++
		c.call(k)
		return true
	}
	return false
}

func (r *zzLockRun) tick(n int) {
	r.mr.FastForward(time.Duration(n) * zzLockUnit)
	r.store("time")
}

func zzLockOne(p zzLockProg) []zzM {
	mr := miniredis.NewMiniRedis()
	if err := mr.Start(); err != nil {
		panic(err)
	}
	defer mr.Close()
	r := &zzLockRun{mr: mr, old: "{}"}
	for i, s := range p.Scripts {
		c := &zzLockClient{r: r, name: fmt.Sprintf("c%d", i+1), script: s, parked: make(chan struct{}), goOn: make(chan struct{}), done: make(chan zzM), state: "idle"}
		c.ctx, c.cancel = context.WithCancel(context.Background())
		c.rc = redis.NewClient(&redis.Options{Addr: mr.Addr(), MaxRetries: -1, DisableIndentity: true})
		c.rc.AddHook(c)
		defer c.rc.Close()
		r.cl = append(r.cl, c)
	}
	for _, s := range p.Sched {
		switch s.K {
		case "tick":
			r.tick(s.N)
		case "fault":
			r.cl[s.C-1].fault = true
		case "cancel":
			c := r.cl[s.C-1]
			c.cancel()
			c.dead = true
			r.emit(zzM{"e": "cancel", "c": c.name})
		default:
			r.cl[s.C-1].step()
		}
	}
	// let everyone finish
	stuck := true
	for round := 0; round < 600; round++ {
		any := false
		for _, c := range r.cl {
			any = c.step() || any
		}
		if !any {
			stuck = false
			break
		}
		if round%12 == 11 {
			r.tick(1)
		}
	}
	r.emit(zzM{"e": "end", "stuck": stuck})
	return r.out
}

func zzModeLock(t *testing.T) {
	o := zzOpenOut()
	defer o.Close()
	zzLines(func(i int, line []byte) {
		var p zzLockProg
		if err := json.Unmarshal(line, &p); err != nil {
			panic(err)
		}
		o.Write(zzM{"id": fmt.Sprintf("lock%d", i), "sc": "lock", "ev": zzLockOne(p)})
	})
}
