package pgsim

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"errors"
	"io"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lib/pq"
)

// Instance is one client process's view of the server: a connector with its
// own gate and statement counter.
type Instance struct {
	DB   *DB
	Name string
	// Gate runs before each statement, outside the store lock. It may block,
	// or return an error that the client sees instead of the statement.
	Gate func(*StmtInfo) error
	// After runs once a statement took effect (commit acknowledged later).
	After func(*StmtInfo, error) error
	n     int64
	dead  int32
	grave chan struct{}
	once  sync.Once
}

func (db *DB) Instance(name string) *Instance {
	return &Instance{DB: db, Name: name, grave: make(chan struct{})}
}

// Open returns a *sql.DB for the instance.
func (in *Instance) Open() *sql.DB { return sql.OpenDB(in) }

// Kill makes every later statement of the instance hang for ever, as the
// statements of a dead process would, and rolls back its open transactions.
func (in *Instance) Kill() {
	atomic.StoreInt32(&in.dead, 1)
	in.DB.KillInst(in.Name)
}

// Bury ends the goroutines that hang because the instance is dead: what they
// hold of the Go process they share with others is given back.
func (in *Instance) Bury()                 { in.once.Do(func() { close(in.grave) }) }
func (in *Instance) hang()                 { <-in.grave; runtime.Goexit() }
func (in *Instance) Dead() bool            { return atomic.LoadInt32(&in.dead) == 1 }
func (in *Instance) Stmts() int64          { return atomic.LoadInt64(&in.n) }
func (in *Instance) ResetCount()           { atomic.StoreInt64(&in.n, 0) }
func (in *Instance) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("pgsim: use Instance") }

func (in *Instance) Connect(context.Context) (driver.Conn, error) { return &conn{in: in}, nil }

type conn struct {
	in *Instance
	tx *Tx
}

var parseCache sync.Map

type parsed struct {
	st  []interface{}
	np  int
	err error
}

func parseCached(s string) parsed {
	if v, ok := parseCache.Load(s); ok {
		return v.(parsed)
	}
	st, np, err := parseSQL(s)
	p := parsed{st, np, err}
	parseCache.Store(s, p)
	return p
}

func (c *conn) gate(ctx context.Context, kind, table, sqlText string, args []Value) (*StmtInfo, error) {
	si := &StmtInfo{Inst: c.in.Name, Kind: kind, Table: table, SQL: sqlText, InTx: c.tx != nil, Ctx: ctx, N: atomic.AddInt64(&c.in.n, 1)}
	if c.tx != nil {
		si.TxID = c.tx.id
	}
	for _, a := range args {
		si.Args = append(si.Args, textOf(a))
	}
	if c.in.Gate != nil {
		if err := c.in.Gate(si); err != nil {
			return si, err
		}
	}
	if c.in.Dead() {
		c.in.hang()
	}
	return si, nil
}

func (c *conn) after(si *StmtInfo, err error) error {
	if c.in.After != nil {
		if e := c.in.After(si, err); e != nil {
			return e
		}
	}
	if c.in.Dead() {
		c.in.hang()
	}
	return err
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}

func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	p := parseCached(q)
	if p.err != nil {
		c.note(q, p.err)
		return nil, c.fail(p.err)
	}
	if len(p.st) == 1 {
		if cp, ok := p.st[0].(*Copy); ok {
			if c.tx == nil {
				return nil, errors.New("pq: Copy In requires a transaction")
			}
			return &copyStmt{c: c, cp: cp, sql: q}, nil
		}
	}
	return &stmt{c: c, q: q, np: p.np}, nil
}

func (c *conn) note(q string, err error) {
	var u *UnsupportedError
	if errors.As(err, &u) {
		c.in.DB.mu.Lock()
		c.in.DB.Unsupported = append(c.in.DB.Unsupported, u.Msg+" in "+strings.Join(strings.Fields(q), " "))
		c.in.DB.mu.Unlock()
	}
}

func (c *conn) fail(err error) error {
	if c.tx != nil {
		c.tx.failed = true
	}
	return err
}

func (c *conn) Close() error {
	c.in.DB.mu.Lock()
	if c.tx != nil {
		c.tx.rollback()
		c.tx = nil
	}
	c.in.DB.mu.Unlock()
	return nil
}
func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	si, err := c.gate(ctx, "begin", "", "BEGIN", nil)
	if err != nil {
		return nil, err
	}
	db := c.in.DB
	db.mu.Lock()
	c.tx = db.begin(c.in.Name)
	lv := sql.IsolationLevel(o.Isolation)
	c.tx.isoRR = lv == sql.LevelRepeatableRead || lv == sql.LevelSerializable || lv == sql.LevelSnapshot
	c.tx.ro = o.ReadOnly
	db.mu.Unlock()
	if err := c.after(si, nil); err != nil {
		// the caller never learns of the transaction: the connection is gone
		db.mu.Lock()
		if c.tx != nil {
			c.tx.rollback()
			c.tx = nil
		}
		db.mu.Unlock()
		return nil, err
	}
	return &txh{c: c, ctx: ctx}, nil
}

type txh struct {
	c   *conn
	ctx context.Context
}

func (t *txh) Commit() error {
	c := t.c
	si, err := c.gate(t.ctx, "commit", "", "COMMIT", nil)
	db := c.in.DB
	db.mu.Lock()
	tx := c.tx
	c.tx = nil
	if tx == nil {
		db.mu.Unlock()
		return err
	}
	if err != nil || tx.failed {
		tx.rollback()
		db.mu.Unlock()
		if err != nil {
			return err
		}
		return errors.New("pq: Could not complete operation in a failed transaction")
	}
	tx.commit()
	db.mu.Unlock()
	return c.after(si, nil)
}

func (t *txh) Rollback() error {
	c := t.c
	si, err := c.gate(t.ctx, "rollback", "", "ROLLBACK", nil)
	db := c.in.DB
	db.mu.Lock()
	if c.tx != nil {
		c.tx.rollback()
		c.tx = nil
	}
	db.mu.Unlock()
	if err != nil {
		return err
	}
	return c.after(si, nil)
}

func (c *conn) Ping(ctx context.Context) error { return ctx.Err() }
func (c *conn) ResetSession(context.Context) error {
	return nil
}

func paramValue(v driver.Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case int64:
		return Unknown(strconv.FormatInt(x, 10))
	case float64:
		return Unknown(strconv.FormatFloat(x, 'f', -1, 64))
	case bool:
		return Unknown(strconv.FormatBool(x))
	case []byte:
		if x == nil {
			return nil
		}
		return Unknown(string(x))
	case string:
		return Unknown(x)
	case time.Time:
		return Unknown(string(pq.FormatTimestamp(x)))
	}
	return nil
}

func stmtKind(st interface{}) (string, string) {
	ft := func(f []FromItem) string {
		for len(f) > 0 {
			switch x := f[0].(type) {
			case *TableRef:
				return x.Name
			case *Join:
				f = []FromItem{x.L}
				continue
			case *SubRef:
				if s, ok := x.S.(*Select); ok {
					f = s.From
					continue
				}
			}
			return ""
		}
		return ""
	}
	switch x := st.(type) {
	case *Select:
		for _, w := range x.With {
			if k, t := stmtKind(w.Stmt); k != "select" {
				return k, t
			}
		}
		k := "select"
		if x.Lock != nil {
			k = "lock"
		}
		return k, ft(x.From)
	case *Insert:
		return "insert", x.Table
	case *Update:
		return "update", x.Table
	case *Delete:
		return "delete", x.Table
	case *Copy:
		return "copy", x.Table
	}
	return "utility", ""
}

func (c *conn) run(ctx context.Context, q string, named []driver.NamedValue) (*rel, int64, error) {
	if err := ctx.Err(); err != nil {
		return nil, 0, err
	}
	p := parseCached(q)
	if p.err != nil {
		c.note(q, p.err)
		return nil, 0, c.fail(p.err)
	}
	args := make([]Value, len(named))
	for i, n := range named {
		args[i] = paramValue(n.Value)
	}
	if len(args) != p.np {
		return nil, 0, c.fail(pgErr("08P01", "pq: got %d parameters but the statement requires %d", len(args), p.np))
	}
	if len(p.st) == 0 {
		return &rel{}, 0, nil
	}
	var r *rel
	var n int64
	for _, st := range p.st {
		kind, table := stmtKind(st)
		si, err := c.gate(ctx, kind, table, q, args)
		if err != nil {
			return nil, 0, c.fail(err)
		}
		r, n, err = c.run1(ctx, q, st, args)
		if err = c.after(si, err); err != nil {
			return nil, 0, c.fail(err)
		}
	}
	return r, n, nil
}

func (c *conn) run1(ctx context.Context, q string, st interface{}, args []Value) (*rel, int64, error) {
	if _, ok := st.(*Utility); ok {
		return &rel{}, 0, nil
	}
	db := c.in.DB
	db.mu.Lock()
	defer db.mu.Unlock()
	tx := c.tx
	implicit := tx == nil
	if implicit {
		tx = db.begin(c.in.Name)
	}
	if tx.failed {
		return nil, 0, pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	if k, _ := stmtKind(st); tx.ro && (k == "insert" || k == "update" || k == "delete") {
		tx.failed = true
		return nil, 0, pgErr("25006", "cannot execute %s in a read-only transaction", strings.ToUpper(k))
	}
	if tx.isoRR && !tx.snap {
		tx.snap = true
		tx.snapSeq = db.commits
		tx.takeSnapshot()
	}
	for {
		qc := &ctxq{db: db, tx: tx, args: args, ctx: ctx}
		sp := tx.savepoint()
		r, n, err := qc.exec(st, nil)
		if re, ok := err.(retryErr); ok {
			tx.rollbackTo(sp)
			if werr := db.wait(ctx, tx, re.on); werr != nil {
				if implicit {
					tx.rollback()
				} else {
					tx.failed = true
				}
				return nil, 0, werr
			}
			continue
		}
		if err != nil {
			if isUnsup(err) {
				db.Unsupported = append(db.Unsupported, err.Error()+" in "+strings.Join(strings.Fields(q), " "))
			}
			if implicit {
				tx.rollback()
			} else {
				tx.failed = true
			}
			return nil, 0, err
		}
		if implicit {
			tx.commit()
		}
		return r, n, nil
	}
}

// repeatable read: remember the committed images at snapshot time
func (tx *Tx) takeSnapshot() {
	tx.snapImg = map[*Row][]Value{}
	for _, t := range tx.db.tables {
		for _, r := range t.Rows {
			tx.snapImg[r] = r.cur
		}
	}
}

func (tx *Tx) rrImage(t *Table, r *Row) []Value { return tx.snapImg[r] }

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, _, err := c.run(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return &rows{r: r}, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	_, n, err := c.run(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return result(n), nil
}

type result int64

func (result) LastInsertId() (int64, error)   { return 0, errors.New("no LastInsertId available") }
func (r result) RowsAffected() (int64, error) { return int64(r), nil }

type rows struct {
	r *rel
	i int
}

func (r *rows) Columns() []string {
	var o []string
	for _, c := range r.r.cols {
		o = append(o, c.name)
	}
	return o
}
func (r *rows) Close() error { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	for i, v := range r.r.rows[r.i] {
		dest[i] = driverValue(v)
	}
	r.i++
	return nil
}

func driverValue(v Value) driver.Value {
	switch x := v.(type) {
	case nil:
		return nil
	case int64, float64, bool, string:
		return x
	case Unknown:
		return string(x)
	case TS:
		if x.TZ {
			return x.T.UTC()
		}
		return time.Date(x.T.Year(), x.T.Month(), x.T.Day(), x.T.Hour(), x.T.Minute(), x.T.Second(), x.T.Nanosecond(), time.FixedZone("", 0))
	}
	return []byte(textOf(v))
}

type stmt struct {
	c  *conn
	q  string
	np int
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return s.np }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, toNamed(args))
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, toNamed(args))
}
func (s *stmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, a)
}
func (s *stmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, a)
}

func toNamed(a []driver.Value) []driver.NamedValue {
	var o []driver.NamedValue
	for i, v := range a {
		o = append(o, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return o
}

// copyStmt implements lib/pq's CopyIn protocol: Exec(args) per row, Exec() to flush.
type copyStmt struct {
	c    *conn
	cp   *Copy
	sql  string
	buf  [][]Value
	done bool
}

func (s *copyStmt) NumInput() int { return -1 }
func (s *copyStmt) Close() error {
	if s.done {
		return nil
	}
	_, err := s.flush(context.Background())
	return err
}
func (s *copyStmt) Query([]driver.Value) (driver.Rows, error) {
	return nil, errors.New("pq: Query is not supported in COPY")
}
func (s *copyStmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.ExecContext(context.Background(), toNamed(args))
}
func (s *copyStmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	if s.done {
		return nil, errors.New("pq: COPY in closed")
	}
	if len(args) == 0 {
		return s.flush(ctx)
	}
	var row []Value
	for _, a := range args {
		switch x := a.Value.(type) {
		case []byte:
			row = append(row, Unknown("\\x"+hex.EncodeToString(x)))
		default:
			row = append(row, paramValue(x))
		}
	}
	s.buf = append(s.buf, row)
	return driver.RowsAffected(0), nil
}

func (s *copyStmt) flush(ctx context.Context) (driver.Result, error) {
	s.done = true
	c := s.c
	si, err := c.gate(ctx, "copy", s.cp.Table, s.sql, nil)
	if err != nil {
		return nil, c.fail(err)
	}
	ins := &Insert{Table: s.cp.Table, Cols: s.cp.Cols, Sel: &Select{}}
	for _, r := range s.buf {
		if len(r) != len(s.cp.Cols) {
			return nil, c.fail(pgErr("22P04", "missing data for column"))
		}
		var e []Expr
		for _, v := range r {
			e = append(e, Lit{v})
		}
		ins.Sel.Values = append(ins.Sel.Values, e)
	}
	n := int64(0)
	if len(s.buf) > 0 {
		_, n, err = c.run1(ctx, s.sql, ins, nil)
	}
	if err = c.after(si, err); err != nil {
		return nil, err
	}
	return driver.RowsAffected(n), nil
}
