package main

// The verification world: an in-memory Postgres (pgsim), an in-memory Redis
// (miniredis) and any number of "processes" (nodes), each a real Blnk instance
// with its own API router and its own queue worker handlers.

import (
	"bytes"
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/database"
	"github.com/blnkfinance/blnk/internal/cache"
	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
	"github.com/gin-gonic/gin"
	"github.com/hibiken/asynq"
	"github.com/redis/go-redis/v9"
	"github.com/sirupsen/logrus"
)

type zzM = map[string]interface{}

type zzWorld struct {
	mr    *miniredis.Miniredis
	rc    *redis.Client
	db    *pgsim.DB
	cfg   *config.Configuration
	insp  *asynq.Inspector
	nodes []*zzNode

	mu     sync.Mutex
	events []zzM
	seq    int

	retried map[string]int // task id -> deliveries that failed
	names   map[string]string
}

type zzNode struct {
	w      *zzWorld
	name   string
	inst   *pgsim.Instance
	conn   *sql.DB
	ds     *database.Datasource
	app    *blnkInstance
	mux    *asynq.ServeMux
	wmux   *asynq.ServeMux
	router http.Handler
	op     string // label of the operation the node is running
}

var zzQuietOnce sync.Once

func zzQuiet() {
	zzQuietOnce.Do(func() {
		logrus.SetOutput(io.Discard)
		logrus.SetLevel(logrus.PanicLevel)
		gin.SetMode(gin.ReleaseMode)
		gin.DefaultWriter = io.Discard
		gin.DefaultErrorWriter = io.Discard
	})
}

func zzConfig(redisAddr string) *config.Configuration {
	return &config.Configuration{
		ProjectName: "verif",
		DataSource:  config.DataSourceConfig{Dns: "postgres://none"},
		Redis:       config.RedisConfig{Dns: redisAddr, PoolSize: 20},
		Server:      config.ServerConfig{SecretKey: "master-secret", Port: "5001"},
		Queue: config.QueueConfig{
			TransactionQueue:    "txq",
			NumberOfQueues:      1,
			WebhookQueue:        "webhookq",
			IndexQueue:          "indexq",
			InflightExpiryQueue: "expiryq",
			InflightCommitQueue: "commitq",
			MonitoringPort:      "5117",
			MaxRetryAttempts:    3,
		},
		Transaction: config.TransactionConfig{
			BatchSize:    100,
			MaxQueueSize: 1000,
			MaxWorkers:   2,
			LockDuration: 30,
		},
		TokenizationSecret: "0123456789abcdef0123456789abcdef",
	}
}

var (
	zzPooled    *zzWorld
	zzPooledKey string
	zzPoolNode  map[string]*zzNode
	zzBaseImg   *pgsim.Image
)

// zzNewWorld returns a fresh world; tweak edits the configuration before it is
// installed.  Worlds with the same key share their processes: the stores are
// emptied in between.
func zzNewWorld(key string, tweak func(*config.Configuration)) *zzWorld {
	zzQuiet()
	if zzPooled != nil && key == zzPooledKey {
		old := zzPooled
		qs, _ := old.insp.Queues()
		old.mr.FlushAll()
		for _, q := range qs { // the client remembers having announced them
			_, _ = old.mr.SAdd("asynq:queues", q)
		}
		old.db.Load(zzBaseImg)
		old.db.NowFn = nil
		w := &zzWorld{mr: old.mr, rc: old.rc, db: old.db, cfg: old.cfg, insp: old.insp, retried: map[string]int{}, names: map[string]string{}}
		w.db.OnCommit = w.onCommit
		zzPooled = w
		return w
	}
	if zzPooled != nil {
		for _, n := range zzPoolNode {
			_ = n.app.blnk.Close()
		}
		_ = zzPooled.insp.Close()
		_ = zzPooled.rc.Close()
		zzPooled.mr.Close()
		zzPooled = nil
	}
	mr := miniredis.NewMiniRedis()
	if err := mr.Start(); err != nil {
		panic(err)
	}
	cfg := zzConfig(mr.Addr())
	if tweak != nil {
		tweak(cfg)
	}
	config.MockConfig(cfg)
	got, err := config.Fetch()
	if err != nil {
		panic(err)
	}
	w := &zzWorld{mr: mr, db: pgsim.NewDB(), cfg: got, retried: map[string]int{}, names: map[string]string{}}
	w.rc = redis.NewClient(&redis.Options{Addr: mr.Addr()})
	w.insp = asynq.NewInspector(asynq.RedisClientOpt{Addr: mr.Addr()})
	w.db.OnCommit = w.onCommit
	zzPooled, zzPooledKey, zzPoolNode = w, key, map[string]*zzNode{}
	zzBaseImg = w.db.Save()
	return w
}

// Close ends a scenario; the processes are kept for the next one.
func (w *zzWorld) Close() {
	for _, n := range w.nodes {
		if n.inst.Dead() {
			_ = n.app.blnk.Close()
			n.inst.Bury()
			delete(zzPoolNode, n.name)
			continue
		}
		n.inst.Gate, n.inst.After = nil, nil
	}
	w.db.OnCommit = nil
	if len(w.db.Unsupported) > 0 {
		zzUnsupported(w.db.Unsupported)
		w.db.Unsupported = nil
	}
}

var zzUnsup sync.Map

func zzUnsupported(l []string) {
	for _, s := range l {
		if _, dup := zzUnsup.LoadOrStore(s, true); !dup {
			fmt.Fprintln(os.Stderr, "PGSIM-UNSUPPORTED", s)
		}
	}
}

// Node adds a process.
func (w *zzWorld) Node(name string) *zzNode {
	if n := zzPoolNode[name]; n != nil && !n.inst.Dead() {
		n.w, n.op = w, ""
		n.inst.Gate, n.inst.After = nil, nil
		if len(w.nodes) == 0 {
			database.ZZSetInstance(n.ds)
		}
		w.nodes = append(w.nodes, n)
		return n
	}
	n := &zzNode{w: w, name: name}
	n.inst = w.db.Instance(name)
	n.conn = n.inst.Open()
	n.ds = &database.Datasource{Conn: n.conn, Cache: cache.NewCacheWithClient(w.rc)}
	if len(w.nodes) == 0 {
		database.ZZSetInstance(n.ds)
	}
	b, err := blnk.NewBlnk(n.ds)
	if err != nil {
		panic(err)
	}
	n.app = &blnkInstance{blnk: b, cnf: w.cfg}
	n.mux = asynq.NewServeMux()
	initializeTaskHandlers(n.app, n.mux)
	n.wmux = asynq.NewServeMux()
	initializeWebhookTaskHandlers(n.app, n.wmux)
	n.router = initializeRouter(n.app)
	w.nodes = append(w.nodes, n)
	zzPoolNode[name] = n
	return n
}

func (n *zzNode) B() *blnk.Blnk { return n.app.blnk }

// ---- events ----

func (w *zzWorld) emit(e zzM) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seq++
	e["seq"] = w.seq
	w.events = append(w.events, e)
}

func (w *zzWorld) takeEvents() []zzM {
	w.mu.Lock()
	defer w.mu.Unlock()
	e := w.events
	w.events = nil
	return e
}

func (w *zzWorld) onCommit(inst string, txid int64, ch []pgsim.Change) {
	w.emit(zzM{"ev": "commit", "inst": inst, "changes": append([]pgsim.Change(nil), ch...)})
}

// ---- HTTP ----

type zzResp struct {
	Code int
	Body []byte
	J    zzM
}

func (r zzResp) OK() bool { return r.Code >= 200 && r.Code < 300 }
func (r zzResp) S(k string) string {
	v, _ := r.J[k].(string)
	return v
}
func (r zzResp) Err() string {
	if r.OK() {
		return ""
	}
	return string(r.Body)
}

func (n *zzNode) Do(method, path string, body interface{}, hdr ...string) zzResp {
	return n.DoCtx(context.Background(), method, path, body, hdr...)
}

func (n *zzNode) DoCtx(ctx context.Context, method, path string, body interface{}, hdr ...string) zzResp {
	var rd io.Reader
	if body != nil {
		if raw, ok := body.([]byte); ok {
			rd = bytes.NewReader(raw)
		} else {
			b, err := json.Marshal(body)
			if err != nil {
				panic(err)
			}
			rd = bytes.NewReader(b)
		}
	}
	req := httptest.NewRequest(method, path, rd).WithContext(ctx)
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	rec := httptest.NewRecorder()
	n.router.ServeHTTP(rec, req)
	r := zzResp{Code: rec.Code, Body: rec.Body.Bytes()}
	dec := json.NewDecoder(bytes.NewReader(r.Body))
	dec.UseNumber()
	_ = dec.Decode(&r.J)
	return r
}

// ---- queue ----

type zzTask struct {
	Queue   string
	ID      string
	Type    string
	Payload []byte
	State   string
	NextAt  time.Time
	Max     int
	Retried int
}

// Tasks lists what is waiting in a queue: pending first, then scheduled and
// retry, in the order asynq would deliver them.
func (w *zzWorld) Tasks(queue string) []zzTask {
	var out []zzTask
	add := func(l []*asynq.TaskInfo, err error) {
		if err != nil {
			return
		}
		for _, t := range l {
			out = append(out, zzTask{Queue: queue, ID: t.ID, Type: t.Type, Payload: t.Payload, State: t.State.String(), NextAt: t.NextProcessAt, Max: t.MaxRetry, Retried: w.retriedOf(t.ID)})
		}
	}
	add(w.insp.ListPendingTasks(queue, asynq.PageSize(1000)))
	add(w.insp.ListScheduledTasks(queue, asynq.PageSize(1000)))
	add(w.insp.ListRetryTasks(queue, asynq.PageSize(1000)))
	return out
}

func (w *zzWorld) Queues() []string {
	q, _ := w.insp.Queues()
	sort.Strings(q)
	return q
}

func (w *zzWorld) TxQueues() []string {
	var out []string
	for _, q := range w.Queues() {
		if strings.HasPrefix(q, w.cfg.Queue.TransactionQueue) || (w.cfg.Queue.EnableHotLane && q == w.cfg.Queue.HotQueueName) {
			out = append(out, q)
		}
	}
	return out
}

// Deliver runs the handler for a task once, as a worker would, without
// acknowledging it.
func (n *zzNode) Deliver(t zzTask) error {
	ctx, cancel := asynq.ZZTaskContext(context.Background(), t.ID, t.Queue, t.Retried, t.Max)
	defer cancel()
	m := n.mux
	if t.Queue == n.w.cfg.Queue.WebhookQueue || t.Queue == n.w.cfg.Queue.IndexQueue {
		m = n.wmux
	}
	return m.ProcessTask(ctx, asynq.NewTask(t.Type, t.Payload))
}

// Ack removes a task that a worker finished.
func (w *zzWorld) Ack(t zzTask) { _ = w.insp.DeleteTask(t.Queue, t.ID) }

// Work delivers everything waiting in the transaction queues (due or not when
// all is set) until nothing is left or nothing progresses; a failing task is
// redelivered up to its max retry.  Returns deliveries.
func (n *zzNode) Work(all bool) int {
	w := n.w
	cnt := 0
	for round := 0; round < 50; round++ {
		did := 0
		for _, q := range w.TxQueues() {
			for {
				ts := w.Tasks(q)
				var t *zzTask
				for i := range ts {
					if all || ts[i].State == "pending" || !ts[i].NextAt.After(time.Now()) {
						t = &ts[i]
						break
					}
				}
				if t == nil {
					break
				}
				cnt++
				did++
				err := n.Deliver(*t)
				if err == nil {
					w.Ack(*t)
				} else {
					w.retriedInc(t.ID)
					if w.retriedOf(t.ID) > t.Max {
						w.Ack(*t)
					}
				}
				if cnt > 500 {
					return cnt
				}
			}
		}
		if did == 0 {
			break
		}
	}
	return cnt
}

// ---- state ----

func zzBig(v interface{}) *big.Int {
	switch x := v.(type) {
	case nil:
		return new(big.Int)
	case *big.Int:
		return x
	case int64:
		return big.NewInt(x)
	case int:
		return big.NewInt(int64(x))
	case pgsim.Num:
		b, ok := new(big.Int).SetString(x.String(), 10)
		if ok {
			return b
		}
		f, _ := new(big.Float).SetString(x.String())
		b, _ = f.Int(nil)
		return b
	case string:
		b, ok := new(big.Int).SetString(x, 10)
		if ok {
			return b
		}
	}
	b, ok := new(big.Int).SetString(fmt.Sprint(v), 10)
	if !ok {
		return new(big.Int)
	}
	return b
}

func zzStr(v interface{}) string {
	if v == nil {
		return ""
	}
	if s, ok := v.(string); ok {
		return s
	}
	return fmt.Sprint(v)
}

func (w *zzWorld) quiesce() { time.Sleep(20 * time.Millisecond) }
