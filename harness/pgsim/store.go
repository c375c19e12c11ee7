package pgsim

import (
	"context"
	"strings"
	"sync"
	"time"

	"github.com/lib/pq"
)

type Column struct {
	Name    string
	Type    string
	NotNull bool
	Default func(tx *Tx) Value
	Check   func(v Value) bool
	ChkName string
	Serial  bool
}

type Unique struct {
	Name  string
	Cols  []int
	Where func(row []Value) bool
	PK    bool
}

type FK struct {
	Name    string
	Col     int
	Ref     string
	RefCol  string
	Cascade bool
}

type Row struct {
	cur     []Value // committed image (nil: does not exist)
	pend    []Value // image written by owner
	hasPend bool
	pendDel bool
	owner   *Tx
	seq     int64 // commit number of cur
}

type Table struct {
	Name   string
	Cols   []*Column
	ix     map[string]int
	Rows   []*Row
	Uniq   []*Unique
	FKs    []*FK
	serial int64
	// BeforeUpdate may replace the new image or veto the update.
	BeforeUpdate func(tx *Tx, old, new []Value) ([]Value, error)
}

func (t *Table) col(n string) int {
	if i, ok := t.ix[n]; ok {
		return i
	}
	return -1
}

// Change is one row effect of a committed transaction.
type Change struct {
	Table string
	Op    string // insert, update, delete
	Old   map[string]Value
	New   map[string]Value
}

// StmtInfo describes a statement at the gate.
type StmtInfo struct {
	Inst  string // connector name
	Kind  string // select insert update delete begin commit rollback copy
	Table string
	SQL   string
	Args  []string
	InTx  bool
	TxID  int64
	N     int64 // statement number on this connector
	Ctx   context.Context
}

type DB struct {
	mu        sync.Mutex
	tables    map[string]*Table
	changed   chan struct{}
	txSeq     int64
	commits   int64
	epoch     int64
	waits     map[*Tx]*Tx
	NowFn     func() time.Time
	Midnights []time.Time
	lastNow   time.Time
	// OnCommit is called under the store lock, in commit order.
	OnCommit func(inst string, txid int64, ch []Change)
	// Unsupported records SQL the simulator could not execute.
	Unsupported []string
	LockWait    time.Duration
}

func NewDB() *DB {
	db := &DB{tables: map[string]*Table{}, changed: make(chan struct{}), waits: map[*Tx]*Tx{}, LockWait: 20 * time.Second}
	db.defineSchema()
	return db
}

// Now returns a strictly increasing microsecond clock so that rows created one
// after another have distinct, ordered timestamps as on a real server.
func (db *DB) now() time.Time {
	var t time.Time
	if db.NowFn != nil {
		t = db.NowFn()
	} else {
		t = time.Now()
	}
	t = t.UTC().Truncate(time.Microsecond)
	if !t.After(db.lastNow) {
		t = db.lastNow.Add(time.Microsecond)
	}
	db.lastNow = t
	return t
}

type Tx struct {
	db      *DB
	id      int64
	inst    string
	now     time.Time
	rows    map[*Row]*Table
	order   []*Row
	isoRR   bool
	snapSeq int64
	snap    bool
	snapImg map[*Row][]Value
	failed  bool
	done    bool
	ro      bool
	epoch   int64
}

func (db *DB) begin(inst string) *Tx {
	db.txSeq++
	return &Tx{db: db, id: db.txSeq, inst: inst, now: db.now(), epoch: db.epoch, rows: map[*Row]*Table{}}
}

func (tx *Tx) touch(t *Table, r *Row) {
	if r.owner != tx {
		r.owner = tx
	}
	if _, ok := tx.rows[r]; !ok {
		tx.rows[r] = t
		tx.order = append(tx.order, r)
	}
}

// visible image of r for tx.
func (tx *Tx) vis(t *Table, r *Row) []Value {
	if r.owner == tx && r.hasPend {
		if r.pendDel {
			return nil
		}
		return r.pend
	}
	return r.cur
}

func (t *Table) rowMap(v []Value) map[string]Value {
	if v == nil {
		return nil
	}
	m := make(map[string]Value, len(v))
	for i, c := range t.Cols {
		m[c.Name] = v[i]
	}
	return m
}

func (tx *Tx) commit() {
	db := tx.db
	if tx.epoch != db.epoch { // began before the store was reset
		tx.rollback()
		return
	}
	var ch []Change
	dead := map[*Table]bool{}
	db.commits++
	for _, r := range tx.order {
		t := tx.rows[r]
		if r.hasPend {
			old := r.cur
			var nw []Value
			if !r.pendDel {
				nw = r.pend
			}
			op := "update"
			if old == nil {
				op = "insert"
			}
			if nw == nil {
				op = "delete"
			}
			if !(old == nil && nw == nil) {
				ch = append(ch, Change{t.Name, op, t.rowMap(old), t.rowMap(nw)})
			}
			r.cur = nw
			r.seq = db.commits
			if nw == nil {
				dead[t] = true
			}
		}
		r.pend, r.hasPend, r.pendDel, r.owner = nil, false, false, nil
	}
	for t := range dead {
		t.compact()
	}
	tx.done = true
	if db.OnCommit != nil && len(ch) > 0 {
		db.OnCommit(tx.inst, tx.id, ch)
	}
	db.wake()
}

func (t *Table) compact() {
	out := t.Rows[:0]
	for _, r := range t.Rows {
		if r.cur != nil || r.owner != nil {
			out = append(out, r)
		}
	}
	t.Rows = out
}

func (tx *Tx) rollback() {
	if tx.done {
		return
	}
	dead := map[*Table]bool{}
	for _, r := range tx.order {
		r.pend, r.hasPend, r.pendDel, r.owner = nil, false, false, nil
		if r.cur == nil {
			dead[tx.rows[r]] = true
		}
	}
	for t := range dead {
		t.compact()
	}
	tx.done = true
	tx.db.wake()
}

func (db *DB) wake() {
	close(db.changed)
	db.changed = make(chan struct{})
}

// retryErr asks the statement loop to wait for a transaction and re-run.
type retryErr struct{ on *Tx }

func (retryErr) Error() string { return "pgsim: retry" }

// wait blocks (store lock released) until on ends.
func (db *DB) wait(ctx context.Context, me, on *Tx) error {
	db.waits[me] = on
	defer delete(db.waits, me)
	for x, n := on, 0; x != nil && n < 64; x, n = db.waits[x], n+1 {
		if x == me {
			return pgErr("40P01", "deadlock detected")
		}
	}
	timer := time.NewTimer(db.LockWait)
	defer timer.Stop()
	for !on.done {
		ch := db.changed
		db.mu.Unlock()
		select {
		case <-ch:
			db.mu.Lock()
		case <-ctx.Done():
			db.mu.Lock()
			return ctx.Err()
		case <-timer.C:
			db.mu.Lock()
			return pgErr("55P03", "canceling statement due to lock timeout")
		}
	}
	return nil
}

func (db *DB) uniqueConflict(tx *Tx, t *Table, self *Row, row []Value) (*Unique, *Row, error) {
	for _, u := range t.Uniq {
		if u.Where != nil && !u.Where(row) {
			continue
		}
		null := false
		for _, c := range u.Cols {
			if row[c] == nil {
				null = true
			}
		}
		if null {
			continue
		}
		same := func(img []Value) bool {
			if img == nil || u.Where != nil && !u.Where(img) {
				return false
			}
			for _, c := range u.Cols {
				if distinct(img[c], row[c]) {
					return false
				}
			}
			return true
		}
		for _, r := range t.Rows {
			if r == self {
				continue
			}
			if r.owner != nil && r.owner != tx && r.hasPend {
				if !r.pendDel && same(r.pend) || same(r.cur) {
					return nil, nil, retryErr{r.owner}
				}
				continue
			}
			if same(tx.vis(t, r)) {
				return u, r, nil
			}
		}
	}
	return nil, nil, nil
}

func uniqueErr(t *Table, u *Unique, row []Value) error {
	var cs, vs []string
	for _, c := range u.Cols {
		cs = append(cs, t.Cols[c].Name)
		vs = append(vs, textOf(row[c]))
	}
	return &pq.Error{Severity: "ERROR", Code: "23505", Message: `duplicate key value violates unique constraint "` + u.Name + `"`,
		Detail: "Key (" + strings.Join(cs, ", ") + ")=(" + strings.Join(vs, ", ") + ") already exists.", Table: t.Name, Schema: "blnk", Constraint: u.Name}
}

func (db *DB) checkRow(tx *Tx, t *Table, row []Value) error {
	for i, c := range t.Cols {
		if row[i] == nil {
			if c.NotNull {
				return &pq.Error{Severity: "ERROR", Code: "23502", Message: `null value in column "` + c.Name + `" of relation "` + t.Name + `" violates not-null constraint`, Table: t.Name, Column: c.Name, Schema: "blnk"}
			}
			continue
		}
		if c.Check != nil && !c.Check(row[i]) {
			return &pq.Error{Severity: "ERROR", Code: "23514", Message: `new row for relation "` + t.Name + `" violates check constraint "` + c.ChkName + `"`, Table: t.Name, Schema: "blnk", Constraint: c.ChkName}
		}
	}
	for _, f := range t.FKs {
		v := row[f.Col]
		if v == nil {
			continue
		}
		rt := db.tables[f.Ref]
		rc := rt.col(f.RefCol)
		ok := false
		for _, r := range rt.Rows {
			if img := tx.vis(rt, r); img != nil && !distinct(img[rc], v) {
				ok = true
				break
			}
			if r.owner != nil && r.owner != tx && r.hasPend && !r.pendDel && r.cur == nil && !distinct(r.pend[rc], v) {
				return retryErr{r.owner}
			}
		}
		if !ok {
			return &pq.Error{Severity: "ERROR", Code: "23503", Message: `insert or update on table "` + t.Name + `" violates foreign key constraint "` + f.Name + `"`,
				Detail: "Key (" + t.Cols[f.Col].Name + ")=(" + textOf(v) + `) is not present in table "` + f.Ref + `".`, Table: t.Name, Schema: "blnk", Constraint: f.Name}
		}
	}
	return nil
}

func (db *DB) insertRow(tx *Tx, t *Table, row []Value) (*Row, error) {
	if err := db.checkRow(tx, t, row); err != nil {
		return nil, err
	}
	u, _, err := db.uniqueConflict(tx, t, nil, row)
	if err != nil {
		return nil, err
	}
	if u != nil {
		return nil, uniqueErr(t, u, row)
	}
	r := &Row{pend: row, hasPend: true}
	t.Rows = append(t.Rows, r)
	tx.touch(t, r)
	return r, nil
}

func (db *DB) updateRow(tx *Tx, t *Table, r *Row, nw []Value) ([]Value, error) {
	if t.BeforeUpdate != nil {
		var err error
		nw, err = t.BeforeUpdate(tx, tx.vis(t, r), nw)
		if err != nil {
			return nil, err
		}
	}
	if err := db.checkRow(tx, t, nw); err != nil {
		return nil, err
	}
	u, _, err := db.uniqueConflict(tx, t, r, nw)
	if err != nil {
		return nil, err
	}
	if u != nil {
		return nil, uniqueErr(t, u, nw)
	}
	tx.touch(t, r)
	r.pend, r.hasPend, r.pendDel = nw, true, false
	return nw, nil
}

func (db *DB) deleteRow(tx *Tx, t *Table, r *Row) error {
	img := tx.vis(t, r)
	// referential actions
	for _, ot := range db.tables {
		for _, f := range ot.FKs {
			if f.Ref != t.Name {
				continue
			}
			v := img[t.col(f.RefCol)]
			for _, or := range ot.Rows {
				oi := tx.vis(ot, or)
				if oi == nil || oi[f.Col] == nil || distinct(oi[f.Col], v) {
					continue
				}
				if f.Cascade {
					if or.owner != nil && or.owner != tx {
						return retryErr{or.owner}
					}
					if err := db.deleteRow(tx, ot, or); err != nil {
						return err
					}
				} else {
					return &pq.Error{Severity: "ERROR", Code: "23503", Message: `update or delete on table "` + t.Name + `" violates foreign key constraint "` + f.Name + `" on table "` + ot.Name + `"`, Table: ot.Name, Schema: "blnk", Constraint: f.Name}
				}
			}
		}
	}
	tx.touch(t, r)
	r.pend, r.hasPend, r.pendDel = nil, true, true
	return nil
}

// ---- inspection API for harnesses ----

// Rows returns the committed rows of a table.
func (db *DB) Rows(table string) []map[string]Value {
	db.mu.Lock()
	defer db.mu.Unlock()
	return db.rowsLocked(table)
}

// View shows several tables as of one instant; no commit happens meanwhile.
func (db *DB) View(f func(rows func(string) []map[string]Value)) {
	db.mu.Lock()
	defer db.mu.Unlock()
	f(db.rowsLocked)
}

func (db *DB) rowsLocked(table string) []map[string]Value {
	t := db.tables[table]
	var out []map[string]Value
	for _, r := range t.Rows {
		if r.cur != nil {
			out = append(out, t.rowMap(r.cur))
		}
	}
	return out
}

// Poke overwrites columns of committed rows directly (an out-of-band writer:
// a test's fault injector or a tamperer), bypassing triggers.
func (db *DB) Poke(table string, match func(map[string]Value) bool, set map[string]Value) int {
	db.mu.Lock()
	defer db.mu.Unlock()
	t := db.tables[table]
	n := 0
	for _, r := range t.Rows {
		if r.cur != nil && match(t.rowMap(r.cur)) {
			nw := append([]Value(nil), r.cur...)
			for k, v := range set {
				nw[t.col(k)] = v
			}
			r.cur = nw
			n++
		}
	}
	return n
}

// Remove deletes committed rows directly, bypassing triggers.
func (db *DB) Remove(table string, match func(map[string]Value) bool) int {
	db.mu.Lock()
	defer db.mu.Unlock()
	t := db.tables[table]
	n := 0
	for _, r := range t.Rows {
		if r.cur != nil && match(t.rowMap(r.cur)) {
			r.cur = nil
			n++
		}
	}
	t.compact()
	return n
}

// Put inserts a committed row directly.
func (db *DB) Put(table string, set map[string]Value) {
	db.mu.Lock()
	defer db.mu.Unlock()
	t := db.tables[table]
	tx := db.begin("put")
	row := t.defaults(tx)
	for k, v := range set {
		row[t.col(k)] = v
	}
	t.Rows = append(t.Rows, &Row{cur: row})
}

func (t *Table) defaults(tx *Tx) []Value {
	row := make([]Value, len(t.Cols))
	for i, c := range t.Cols {
		if c.Serial {
			t.serial++
			row[i] = t.serial
		} else if c.Default != nil {
			row[i] = c.Default(tx)
		}
	}
	return row
}

// Image is a deep-enough copy of the committed state.
type Image struct {
	rows   map[string][][]Value
	serial map[string]int64
}

func (db *DB) Save() *Image {
	db.mu.Lock()
	defer db.mu.Unlock()
	im := &Image{map[string][][]Value{}, map[string]int64{}}
	for n, t := range db.tables {
		for _, r := range t.Rows {
			if r.cur != nil {
				im.rows[n] = append(im.rows[n], r.cur)
			}
		}
		im.serial[n] = t.serial
	}
	return im
}

func (db *DB) Load(im *Image) {
	db.mu.Lock()
	defer db.mu.Unlock()
	db.epoch++
	for n, t := range db.tables {
		t.Rows = nil
		for _, r := range im.rows[n] {
			t.Rows = append(t.Rows, &Row{cur: r})
		}
		t.serial = im.serial[n]
	}
}

// KillInst rolls back every open transaction of a connector (its process died).
func (db *DB) KillInst(inst string) {
	db.mu.Lock()
	defer db.mu.Unlock()
	seen := map[*Tx]bool{}
	for _, t := range db.tables {
		for _, r := range t.Rows {
			if r.owner != nil && r.owner.inst == inst {
				seen[r.owner] = true
			}
		}
	}
	for tx := range seen {
		tx.rollback()
	}
}

type pendImg struct {
	pend     []Value
	has, del bool
}

type savepoint struct {
	n    int
	imgs map[*Row]pendImg
}

func (tx *Tx) savepoint() savepoint {
	sp := savepoint{len(tx.order), map[*Row]pendImg{}}
	for _, r := range tx.order {
		sp.imgs[r] = pendImg{r.pend, r.hasPend, r.pendDel}
	}
	return sp
}

func (tx *Tx) rollbackTo(sp savepoint) {
	dead := map[*Table]bool{}
	for _, r := range tx.order[sp.n:] {
		r.pend, r.hasPend, r.pendDel, r.owner = nil, false, false, nil
		if r.cur == nil {
			dead[tx.rows[r]] = true
		}
		delete(tx.rows, r)
	}
	tx.order = tx.order[:sp.n]
	for r, i := range sp.imgs {
		r.pend, r.hasPend, r.pendDel = i.pend, i.has, i.del
	}
	for t := range dead {
		t.compact()
	}
	if len(dead) > 0 {
		tx.db.wake()
	}
}

// CommitCount is the number of committed transactions so far.
func (db *DB) CommitCount() int {
	db.mu.Lock()
	defer db.mu.Unlock()
	return int(db.commits)
}
