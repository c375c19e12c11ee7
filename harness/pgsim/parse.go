package pgsim

import (
	"strconv"
	"strings"
)

type Expr interface{}

type (
	Lit   struct{ V Value }
	Param struct{ N int }
	Col   struct{ Tbl, Name string }
	Star  struct{ Tbl string }
	Bin   struct {
		Op   string
		L, R Expr
	}
	Un struct {
		Op string
		E  Expr
	}
	IsNull struct {
		E   Expr
		Not bool
	}
	IsBool struct {
		E      Expr
		Not, V bool
	}
	In struct {
		E    Expr
		List []Expr
		Sub  *Select
		Not  bool
	}
	Between struct {
		E, Lo, Hi Expr
		Not       bool
	}
	Like struct {
		E, Pat   Expr
		Not, Ins bool
	}
	Quant struct {
		Op  string
		L   Expr
		Arr Expr
		Sub *Select
		All bool
	}
	Case struct {
		Operand Expr
		Whens   [][2]Expr
		Else    Expr
	}
	Cast struct {
		E   Expr
		Typ string
	}
	Func struct {
		Name           string
		Args           []Expr
		Star, Distinct bool
		Filter         Expr
		Over           *Over
		Order          []OrderItem
	}
	Over struct {
		Part  []Expr
		Order []OrderItem
	}
	SubQ    struct{ S *Select }
	Exists  struct{ S *Select }
	ArrLit  struct{ L []Expr }
	ArrSub  struct{ S *Select }
	RowE    struct{ L []Expr }
	Index   struct{ E, I Expr }
	Extract struct {
		Field string
		E     Expr
	}
)

type OrderItem struct {
	E          Expr
	Desc       bool
	NullsFirst *bool
}

type CTE struct {
	Name string
	Cols []string
	Stmt interface{}
	Rec  bool
}

type SelItem struct {
	E     Expr
	Alias string
}

type LockClause struct {
	Strength         string
	SkipLocked, NoWt bool
	Of               []string
}

type Select struct {
	With     []CTE
	Distinct bool
	DistOn   []Expr
	Items    []SelItem
	From     []FromItem
	Where    Expr
	GroupBy  []Expr
	Having   Expr
	Values   [][]Expr
	SetOp    string // "", UNION, INTERSECT, EXCEPT
	SetAll   bool
	L, R     *Select
	OrderBy  []OrderItem
	Limit    Expr
	Offset   Expr
	Lock     *LockClause
}

type FromItem interface{}
type (
	TableRef struct{ Name, Alias string }
	SubRef   struct {
		S       interface{}
		Alias   string
		Cols    []string
		Lateral bool
	}
	Join struct {
		Kind  string // INNER LEFT RIGHT FULL CROSS
		L, R  FromItem
		On    Expr
		Using []string
	}
	FuncRef struct {
		F     *Func
		Alias string
		Cols  []string
	}
)

type SetClause struct {
	Col  string
	Cols []string
	E    Expr
}

type OnConflict struct {
	Cols       []string
	Constraint string
	Nothing    bool
	Sets       []SetClause
	Where      Expr
}

type Insert struct {
	With      []CTE
	Table     string
	Alias     string
	Cols      []string
	Sel       *Select
	Default   bool
	Conflict  *OnConflict
	Returning []SelItem
}
type Update struct {
	With         []CTE
	Table, Alias string
	Sets         []SetClause
	From         []FromItem
	Where        Expr
	Returning    []SelItem
}
type Delete struct {
	With         []CTE
	Table, Alias string
	Using        []FromItem
	Where        Expr
	Returning    []SelItem
}
type Copy struct {
	Table string
	Cols  []string
}
type Utility struct{ Kind string }

type parser struct {
	t        []tok
	p        int
	maxParam int
}

type perr struct{ e error }

func (p *parser) fail(format string, a ...interface{}) { panic(perr{pgErr("42601", format, a...)}) }
func (p *parser) syntax() {
	if p.t[p.p].k == 0 {
		p.fail("syntax error at end of input")
	}
	p.fail("syntax error at or near %q", p.t[p.p].s)
}
func (p *parser) unsup(format string, a ...interface{}) { panic(perr{unsupported(format, a...)}) }

func parseSQL(src string) (stmts []interface{}, np int, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, 0, err
	}
	p := &parser{t: ts}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = pe.e
				return
			}
			panic(r)
		}
	}()
	for {
		for p.op(";") {
		}
		if p.cur().k == 0 {
			break
		}
		stmts = append(stmts, p.stmt())
		if p.cur().k != 0 && !p.peekOp(";") {
			p.syntax()
		}
	}
	return stmts, p.maxParam, nil
}

func (p *parser) cur() tok { return p.t[p.p] }
func (p *parser) at(n int) tok {
	if p.p+n < len(p.t) {
		return p.t[p.p+n]
	}
	return tok{}
}
func (p *parser) kw(ws ...string) bool {
	for i, w := range ws {
		t := p.at(i)
		if t.k != 'i' || t.s != w {
			return false
		}
	}
	p.p += len(ws)
	return true
}
func (p *parser) peekKw(w string) bool { return p.cur().k == 'i' && p.cur().s == w }
func (p *parser) need(ws ...string) {
	if !p.kw(ws...) {
		p.syntax()
	}
}
func (p *parser) op(o string) bool {
	if p.cur().k == 'o' && p.cur().s == o {
		p.p++
		return true
	}
	return false
}
func (p *parser) peekOp(o string) bool { return p.cur().k == 'o' && p.cur().s == o }
func (p *parser) needOp(o string) {
	if !p.op(o) {
		p.syntax()
	}
}

var reserved = map[string]bool{"select": true, "from": true, "where": true, "group": true, "order": true, "limit": true, "offset": true,
	"union": true, "intersect": true, "except": true, "having": true, "on": true, "using": true, "join": true, "inner": true, "left": true, "right": true, "full": true,
	"cross": true, "as": true, "and": true, "or": true, "not": true, "set": true, "returning": true, "for": true, "when": true, "then": true, "else": true, "end": true,
	"case": true, "is": true, "in": true, "between": true, "like": true, "ilike": true, "values": true, "with": true, "natural": true, "window": true, "fetch": true, "lateral": true,
	"asc": true, "desc": true, "nulls": true, "distinct": true, "into": true}

func (p *parser) ident() string {
	t := p.cur()
	if t.k == 'q' || t.k == 'i' && !reserved[t.s] {
		p.p++
		return t.s
	}
	p.syntax()
	return ""
}

// any identifier incl. keywords (after AS or a dot)
func (p *parser) label() string {
	t := p.cur()
	if t.k == 'q' || t.k == 'i' {
		p.p++
		return t.s
	}
	p.syntax()
	return ""
}

func (p *parser) tableName() string {
	n := p.ident()
	if p.op(".") {
		n = p.label()
	}
	return n
}

func (p *parser) identList() []string {
	p.needOp("(")
	var out []string
	for {
		out = append(out, p.label())
		if p.op(")") {
			return out
		}
		p.needOp(",")
	}
}

func (p *parser) stmt() interface{} {
	with := p.withClause()
	switch {
	case p.peekKw("select") || p.peekKw("values") || p.peekOp("("):
		s := p.selectStmt()
		s.With = append(with, s.With...)
		return s
	case p.kw("insert", "into"):
		return p.insert(with)
	case p.kw("update"):
		return p.update(with)
	case p.kw("delete", "from"):
		return p.del(with)
	case p.kw("copy"):
		t := p.tableName()
		c := p.identList()
		p.need("from", "stdin")
		for p.cur().k != 0 && !p.peekOp(";") {
			p.p++
		}
		return &Copy{t, c}
	case p.peekKw("set") || p.peekKw("begin") || p.peekKw("commit") || p.peekKw("rollback") || p.peekKw("listen") || p.peekKw("notify") || p.peekKw("start"):
		k := p.cur().s
		for p.cur().k != 0 && !p.peekOp(";") {
			p.p++
		}
		return &Utility{k}
	}
	if p.cur().k == 'i' {
		switch p.cur().s {
		case "create", "alter", "drop", "truncate", "lock", "savepoint", "release", "vacuum", "analyze", "explain", "do", "merge", "declare":
			p.unsup("statement %q", p.cur().s)
		}
	}
	p.syntax()
	return nil
}

func (p *parser) withClause() []CTE {
	if !p.kw("with") {
		return nil
	}
	rec := p.kw("recursive")
	var out []CTE
	for {
		c := CTE{Name: p.ident(), Rec: rec}
		if p.peekOp("(") {
			c.Cols = p.identList()
		}
		p.need("as")
		if p.kw("not") {
			p.need("materialized")
		} else {
			p.kw("materialized")
		}
		p.needOp("(")
		c.Stmt = p.stmt()
		p.needOp(")")
		out = append(out, c)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) selectStmt() *Select {
	s := p.setExpr(0)
	// trailing clauses belong to the whole set expression
	if s.OrderBy == nil && s.Limit == nil && s.Offset == nil && s.Lock == nil {
		p.tail(s)
	} else if p.peekKw("order") || p.peekKw("limit") || p.peekKw("offset") {
		w := &Select{Items: []SelItem{{E: Star{}}}, From: []FromItem{&SubRef{S: s, Alias: "_w"}}}
		p.tail(w)
		return w
	}
	return s
}

func (p *parser) tail(s *Select) {
	for {
		switch {
		case p.kw("order", "by"):
			s.OrderBy = p.orderList()
		case p.kw("limit"):
			if p.kw("all") {
			} else {
				s.Limit = p.expr()
			}
		case p.kw("offset"):
			s.Offset = p.expr()
			if !p.kw("rows") {
				p.kw("row")
			}
		case p.kw("fetch"):
			if !p.kw("first") {
				p.need("next")
			}
			s.Limit = Lit{int64(1)}
			if !p.peekKw("rows") && !p.peekKw("row") {
				s.Limit = p.primary()
			}
			if !p.kw("rows") {
				p.need("row")
			}
			p.need("only")
		case p.peekKw("for"):
			p.p++
			l := &LockClause{}
			switch {
			case p.kw("update"):
				l.Strength = "update"
			case p.kw("no", "key", "update"):
				l.Strength = "update"
			case p.kw("share"):
				l.Strength = "share"
			case p.kw("key", "share"):
				l.Strength = "keyshare"
			default:
				p.syntax()
			}
			if p.kw("of") {
				for {
					l.Of = append(l.Of, p.ident())
					if !p.op(",") {
						break
					}
				}
			}
			if p.kw("nowait") {
				l.NoWt = true
			} else if p.kw("skip", "locked") {
				l.SkipLocked = true
			}
			s.Lock = l
		default:
			return
		}
	}
}

func (p *parser) orderList() []OrderItem {
	var out []OrderItem
	for {
		o := OrderItem{E: p.expr()}
		if p.kw("desc") {
			o.Desc = true
		} else {
			p.kw("asc")
		}
		if p.kw("nulls", "first") {
			t := true
			o.NullsFirst = &t
		} else if p.kw("nulls", "last") {
			t := false
			o.NullsFirst = &t
		}
		out = append(out, o)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) setExpr(prec int) *Select {
	l := p.setPrimary()
	for {
		var op string
		var pr int
		switch {
		case p.peekKw("union"):
			op, pr = "UNION", 1
		case p.peekKw("except"):
			op, pr = "EXCEPT", 1
		case p.peekKw("intersect"):
			op, pr = "INTERSECT", 2
		default:
			return l
		}
		if pr <= prec {
			return l
		}
		p.p++
		all := p.kw("all")
		if !all {
			p.kw("distinct")
		}
		r := p.setExpr(pr)
		l = &Select{SetOp: op, SetAll: all, L: l, R: r}
	}
}

func (p *parser) setPrimary() *Select {
	if p.op("(") {
		var s *Select
		w := p.withClause()
		s = p.selectStmt()
		s.With = append(w, s.With...)
		p.needOp(")")
		// isolate tail clauses
		if s.OrderBy != nil || s.Limit != nil || s.Offset != nil {
			return &Select{Items: []SelItem{{E: Star{}}}, From: []FromItem{&SubRef{S: s, Alias: "_p"}}}
		}
		return s
	}
	if p.kw("values") {
		s := &Select{}
		for {
			p.needOp("(")
			var row []Expr
			for {
				if p.kw("default") {
					row = append(row, nil)
				} else {
					row = append(row, p.expr())
				}
				if p.op(")") {
					break
				}
				p.needOp(",")
			}
			s.Values = append(s.Values, row)
			if !p.op(",") {
				return s
			}
		}
	}
	p.need("select")
	s := &Select{}
	if p.kw("distinct") {
		s.Distinct = true
		if p.kw("on") {
			p.needOp("(")
			s.DistOn = p.exprList(")")
		}
	} else {
		p.kw("all")
	}
	s.Items = p.selItems()
	if p.kw("from") {
		s.From = p.fromList()
	}
	if p.kw("where") {
		s.Where = p.expr()
	}
	if p.kw("group", "by") {
		for {
			s.GroupBy = append(s.GroupBy, p.expr())
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("having") {
		s.Having = p.expr()
	}
	return s
}

func (p *parser) selItems() []SelItem {
	var out []SelItem
	if p.cur().k == 0 || p.peekKw("from") {
		return nil
	}
	for {
		if p.op("*") {
			out = append(out, SelItem{E: Star{}})
		} else if (p.cur().k == 'i' || p.cur().k == 'q') && p.at(1).k == 'o' && p.at(1).s == "." && p.at(2).k == 'o' && p.at(2).s == "*" {
			t := p.cur().s
			p.p += 3
			out = append(out, SelItem{E: Star{t}})
		} else {
			it := SelItem{E: p.expr()}
			if p.kw("as") {
				it.Alias = p.label()
			} else if p.cur().k == 'q' || p.cur().k == 'i' && !reserved[p.cur().s] {
				it.Alias = p.label()
			}
			out = append(out, it)
		}
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) exprList(end string) []Expr {
	var out []Expr
	if p.op(end) {
		return out
	}
	for {
		out = append(out, p.expr())
		if p.op(end) {
			return out
		}
		p.needOp(",")
	}
}

func (p *parser) fromList() []FromItem {
	var out []FromItem
	for {
		out = append(out, p.fromItem())
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) fromItem() FromItem {
	l := p.fromPrimary()
	for {
		kind := ""
		switch {
		case p.kw("cross", "join"):
			l = &Join{Kind: "CROSS", L: l, R: p.fromPrimary()}
			continue
		case p.kw("inner", "join"), p.kw("join"):
			kind = "INNER"
		case p.kw("left", "outer", "join"), p.kw("left", "join"):
			kind = "LEFT"
		case p.kw("right", "outer", "join"), p.kw("right", "join"):
			kind = "RIGHT"
		case p.kw("full", "outer", "join"), p.kw("full", "join"):
			kind = "FULL"
		default:
			return l
		}
		j := &Join{Kind: kind, L: l, R: p.fromPrimary()}
		if p.kw("on") {
			j.On = p.expr()
		} else if p.kw("using") {
			j.Using = p.identList()
		} else {
			p.syntax()
		}
		l = j
	}
}

func (p *parser) alias() (string, []string) {
	a := ""
	if p.kw("as") {
		a = p.label()
	} else if p.cur().k == 'q' || p.cur().k == 'i' && !reserved[p.cur().s] {
		a = p.label()
	}
	var cols []string
	if a != "" && p.peekOp("(") {
		cols = p.identList()
	}
	return a, cols
}

func (p *parser) fromPrimary() FromItem {
	lat := p.kw("lateral")
	if p.op("(") {
		if p.peekKw("select") || p.peekKw("values") || p.peekKw("with") || p.peekOp("(") {
			w := p.withClause()
			s := p.selectStmt()
			s.With = append(w, s.With...)
			p.needOp(")")
			a, c := p.alias()
			return &SubRef{S: s, Alias: a, Cols: c, Lateral: lat}
		}
		f := p.fromItem()
		p.needOp(")")
		return f
	}
	if p.kw("only") {
	}
	n := p.tableName()
	if p.op("(") {
		f := &Func{Name: n, Args: p.exprList(")")}
		a, c := p.alias()
		if a == "" {
			a = n
		}
		return &FuncRef{f, a, c}
	}
	a, c := p.alias()
	if c != nil {
		return &SubRef{S: &Select{Items: []SelItem{{E: Star{}}}, From: []FromItem{&TableRef{n, n}}}, Alias: a, Cols: c}
	}
	if a == "" {
		a = n
	}
	return &TableRef{n, a}
}

func (p *parser) sets() []SetClause {
	var out []SetClause
	for {
		if p.peekOp("(") {
			cs := p.identList()
			p.needOp("=")
			p.kw("row")
			out = append(out, SetClause{Cols: cs, E: p.primary()})
		} else {
			c := p.label()
			if p.op(".") {
				c = p.label()
			}
			p.needOp("=")
			if p.kw("default") {
				p.unsup("SET DEFAULT")
			}
			out = append(out, SetClause{Col: c, E: p.expr()})
		}
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) insert(w []CTE) interface{} {
	s := &Insert{With: w, Table: p.tableName()}
	if p.kw("as") {
		s.Alias = p.ident()
	}
	if p.peekOp("(") && !(p.at(1).k == 'i' && (p.at(1).s == "select" || p.at(1).s == "with")) {
		s.Cols = p.identList()
	}
	if p.kw("default", "values") {
		s.Default = true
	} else {
		w2 := p.withClause()
		s.Sel = p.selectStmt()
		s.Sel.With = append(w2, s.Sel.With...)
	}
	if p.kw("on", "conflict") {
		c := &OnConflict{}
		if p.peekOp("(") {
			c.Cols = p.identList()
			if p.kw("where") {
				p.expr()
			}
		} else if p.kw("on", "constraint") {
			c.Constraint = p.ident()
		}
		p.need("do")
		if p.kw("nothing") {
			c.Nothing = true
		} else {
			p.need("update", "set")
			c.Sets = p.sets()
			if p.kw("where") {
				c.Where = p.expr()
			}
		}
		s.Conflict = c
	}
	if p.kw("returning") {
		s.Returning = p.selItems()
	}
	return s
}

func (p *parser) update(w []CTE) interface{} {
	p.kw("only")
	s := &Update{With: w, Table: p.tableName()}
	if p.kw("as") {
		s.Alias = p.ident()
	} else if !p.peekKw("set") {
		s.Alias = p.ident()
	}
	p.need("set")
	s.Sets = p.sets()
	if p.kw("from") {
		s.From = p.fromList()
	}
	if p.kw("where") {
		s.Where = p.expr()
	}
	if p.kw("returning") {
		s.Returning = p.selItems()
	}
	return s
}

func (p *parser) del(w []CTE) interface{} {
	s := &Delete{With: w, Table: p.tableName()}
	if p.kw("as") {
		s.Alias = p.ident()
	} else if p.cur().k == 'i' && !reserved[p.cur().s] {
		s.Alias = p.ident()
	}
	if p.kw("using") {
		s.Using = p.fromList()
	}
	if p.kw("where") {
		s.Where = p.expr()
	}
	if p.kw("returning") {
		s.Returning = p.selItems()
	}
	return s
}

// ---- expressions ----

func (p *parser) expr() Expr { return p.orE() }

func (p *parser) orE() Expr {
	l := p.andE()
	for p.kw("or") {
		l = &Bin{"OR", l, p.andE()}
	}
	return l
}
func (p *parser) andE() Expr {
	l := p.notE()
	for p.kw("and") {
		l = &Bin{"AND", l, p.notE()}
	}
	return l
}
func (p *parser) notE() Expr {
	if p.kw("not") {
		return &Un{"NOT", p.notE()}
	}
	return p.isE()
}
func (p *parser) isE() Expr {
	l := p.cmpE()
	for p.peekKw("is") || p.peekKw("isnull") || p.peekKw("notnull") {
		if p.kw("isnull") {
			l = &IsNull{l, false}
			continue
		}
		if p.kw("notnull") {
			l = &IsNull{l, true}
			continue
		}
		p.p++
		not := p.kw("not")
		switch {
		case p.kw("null"):
			l = &IsNull{l, not}
		case p.kw("true"):
			l = &IsBool{l, not, true}
		case p.kw("false"):
			l = &IsBool{l, not, false}
		case p.kw("unknown"):
			l = &IsNull{l, not}
		case p.kw("distinct", "from"):
			r := p.cmpE()
			op := "DISTINCT"
			if not {
				op = "NOTDISTINCT"
			}
			l = &Bin{op, l, r}
		default:
			p.syntax()
		}
	}
	return l
}

func (p *parser) cmpE() Expr {
	l := p.likeE()
	for p.cur().k == 'o' {
		o := p.cur().s
		switch o {
		case "=", "<", ">", "<=", ">=", "<>", "!=":
			if o == "!=" {
				o = "<>"
			}
			p.p++
			if p.peekKw("any") || p.peekKw("some") || p.peekKw("all") {
				all := p.peekKw("all")
				if p.at(1).k == 'o' && p.at(1).s == "(" {
					p.p += 2
					q := &Quant{Op: o, L: l, All: all}
					if p.peekKw("select") || p.peekKw("with") {
						w := p.withClause()
						q.Sub = p.selectStmt()
						q.Sub.With = append(w, q.Sub.With...)
					} else {
						q.Arr = p.expr()
					}
					p.needOp(")")
					l = q
					continue
				}
			}
			l = &Bin{o, l, p.likeE()}
		default:
			return l
		}
	}
	return l
}

func (p *parser) likeE() Expr {
	l := p.otherE()
	for {
		not := false
		save := p.p
		if p.kw("not") {
			not = true
		}
		switch {
		case p.kw("like"):
			l = p.likeTail(l, not, false)
		case p.kw("ilike"):
			l = p.likeTail(l, not, true)
		case p.kw("between"):
			sym := p.kw("symmetric")
			_ = sym
			lo := p.otherE()
			p.need("and")
			hi := p.otherE()
			l = &Between{l, lo, hi, not}
		case p.kw("in"):
			p.needOp("(")
			in := &In{E: l, Not: not}
			if p.peekKw("select") || p.peekKw("with") || p.peekKw("values") {
				w := p.withClause()
				in.Sub = p.selectStmt()
				in.Sub.With = append(w, in.Sub.With...)
				p.needOp(")")
			} else {
				in.List = p.exprList(")")
				if len(in.List) == 0 {
					p.p--
					p.syntax()
				}
			}
			l = in
		default:
			p.p = save
			return l
		}
	}
}

func (p *parser) likeTail(l Expr, not, ins bool) Expr {
	pat := p.otherE()
	if p.kw("escape") {
		p.otherE()
	}
	return &Like{l, pat, not, ins}
}

func (p *parser) otherE() Expr {
	l := p.addE()
	for p.cur().k == 'o' {
		switch o := p.cur().s; o {
		case "||", "->", "->>", "#>", "#>>", "@>", "<@", "?", "?|", "?&", "~", "~*", "!~", "!~*":
			p.p++
			l = &Bin{o, l, p.addE()}
		default:
			return l
		}
	}
	return l
}
func (p *parser) addE() Expr {
	l := p.mulE()
	for p.cur().k == 'o' && (p.cur().s == "+" || p.cur().s == "-") {
		o := p.cur().s
		p.p++
		l = &Bin{o, l, p.mulE()}
	}
	return l
}
func (p *parser) mulE() Expr {
	l := p.atE()
	for p.cur().k == 'o' && (p.cur().s == "*" || p.cur().s == "/" || p.cur().s == "%") {
		o := p.cur().s
		p.p++
		l = &Bin{o, l, p.atE()}
	}
	return l
}
func (p *parser) atE() Expr {
	l := p.unE()
	for p.kw("at", "time", "zone") {
		l = &Func{Name: "timezone", Args: []Expr{p.unE(), l}}
	}
	return l
}
func (p *parser) unE() Expr {
	if p.op("-") {
		return &Un{"-", p.unE()}
	}
	if p.op("+") {
		return p.unE()
	}
	return p.postfix(p.primary())
}

func (p *parser) typeNm() string {
	n := p.label()
	if p.op(".") {
		n = p.label()
	}
	switch n {
	case "double":
		p.need("precision")
		n = "double precision"
	case "character":
		if p.kw("varying") {
			n = "varchar"
		} else {
			n = "char"
		}
	case "timestamp", "time":
		if p.op("(") {
			p.p++
			p.needOp(")")
		}
		if p.kw("with", "time", "zone") {
			n += "tz"
		} else {
			p.kw("without", "time", "zone")
		}
	}
	if p.peekOp("(") {
		p.p++
		for !p.op(")") {
			p.p++
		}
	}
	for p.peekOp("[") && p.at(1).s == "]" {
		p.p += 2
		n += "[]"
	}
	return n
}

func (p *parser) postfix(e Expr) Expr {
	for {
		if p.op("::") {
			e = &Cast{e, p.typeNm()}
		} else if p.peekOp("[") {
			p.p++
			i := p.expr()
			p.needOp("]")
			e = &Index{e, i}
		} else {
			return e
		}
	}
}

func (p *parser) subselect() *Select {
	w := p.withClause()
	s := p.selectStmt()
	s.With = append(w, s.With...)
	return s
}

func (p *parser) primary() Expr {
	t := p.cur()
	switch t.k {
	case 's':
		p.p++
		return Lit{Unknown(t.s)}
	case 'n':
		p.p++
		if !strings.ContainsAny(t.s, ".eE") {
			if v, err := strconv.ParseInt(t.s, 10, 64); err == nil {
				return Lit{v}
			}
		}
		n, err := parseNum(t.s)
		if err != nil {
			panic(perr{err})
		}
		return Lit{n}
	case 'p':
		p.p++
		n, _ := strconv.Atoi(t.s)
		if n > p.maxParam {
			p.maxParam = n
		}
		return Param{n}
	case 'o':
		if p.op("(") {
			if p.peekKw("select") || p.peekKw("with") || p.peekKw("values") {
				s := p.subselect()
				p.needOp(")")
				return &SubQ{s}
			}
			l := p.exprList(")")
			if len(l) == 1 {
				return l[0]
			}
			return &RowE{l}
		}
	case 'q':
		return p.colRef()
	case 'i':
		switch t.s {
		case "null":
			p.p++
			return Lit{nil}
		case "true":
			p.p++
			return Lit{true}
		case "false":
			p.p++
			return Lit{false}
		case "case":
			p.p++
			c := &Case{}
			if !p.peekKw("when") {
				c.Operand = p.expr()
			}
			for p.kw("when") {
				a := p.expr()
				p.need("then")
				c.Whens = append(c.Whens, [2]Expr{a, p.expr()})
			}
			if p.kw("else") {
				c.Else = p.expr()
			}
			p.need("end")
			return c
		case "exists":
			p.p++
			p.needOp("(")
			s := p.subselect()
			p.needOp(")")
			return &Exists{s}
		case "cast":
			p.p++
			p.needOp("(")
			e := p.expr()
			p.need("as")
			ty := p.typeNm()
			p.needOp(")")
			return &Cast{e, ty}
		case "interval", "timestamp", "timestamptz", "date", "jsonb", "json":
			if p.at(1).k == 's' {
				p.p += 2
				return &Cast{Lit{Unknown(p.t[p.p-1].s)}, t.s}
			}
		case "array":
			p.p++
			if p.op("[") {
				return &ArrLit{p.exprList("]")}
			}
			p.needOp("(")
			s := p.subselect()
			p.needOp(")")
			return &ArrSub{s}
		case "row":
			if p.at(1).s == "(" {
				p.p += 2
				return &RowE{p.exprList(")")}
			}
		case "extract":
			p.p++
			p.needOp("(")
			f := p.label()
			p.need("from")
			e := p.expr()
			p.needOp(")")
			return &Extract{f, e}
		case "current_timestamp", "localtimestamp", "current_date":
			p.p++
			return &Func{Name: t.s}
		}
		if reserved[t.s] && t.s != "left" && t.s != "right" {
			p.syntax()
		}
		return p.colRef()
	}
	p.syntax()
	return nil
}

func (p *parser) colRef() Expr {
	name := p.label()
	tbl := ""
	for p.peekOp(".") && (p.at(1).k == 'i' || p.at(1).k == 'q') {
		p.p++
		tbl = name
		name = p.label()
	}
	if p.peekOp("(") {
		p.p++
		f := &Func{Name: strings.ToLower(name)}
		if p.op("*") {
			f.Star = true
			p.needOp(")")
		} else {
			f.Distinct = p.kw("distinct")
			if p.op(")") {
			} else {
				for {
					f.Args = append(f.Args, p.expr())
					if p.op(",") {
						continue
					}
					break
				}
				if p.kw("order", "by") {
					f.Order = p.orderList()
				}
				p.needOp(")")
			}
		}
		if p.kw("filter") {
			p.needOp("(")
			p.need("where")
			f.Filter = p.expr()
			p.needOp(")")
		}
		if p.kw("over") {
			p.needOp("(")
			o := &Over{}
			if p.kw("partition", "by") {
				for {
					o.Part = append(o.Part, p.expr())
					if !p.op(",") {
						break
					}
				}
			}
			if p.kw("order", "by") {
				o.Order = p.orderList()
			}
			p.needOp(")")
			f.Over = o
		}
		return f
	}
	return Col{tbl, name}
}
