package pgsim

import (
	"context"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

func bigAdd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bigSub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

type ctxq struct {
	db   *DB
	tx   *Tx
	args []Value
	ctes map[string]*rel
	up   *ctxq
	ctx  context.Context
}

func (q *ctxq) cte(n string) *rel {
	for c := q; c != nil; c = c.up {
		if r, ok := c.ctes[n]; ok {
			return r
		}
	}
	return nil
}

type colref struct{ tbl, name string }

type rel struct {
	cols []colref
	rows [][]Value
	src  [][]baseRow // per row, the base rows it came from
}

type baseRow struct {
	alias string
	t     *Table
	r     *Row
}

// scope is the name environment of an expression.
type scope struct {
	cols  []colref
	row   []Value
	up    *scope
	group *groupCtx
	wins  map[*Func]Value
}

type groupCtx struct {
	rows   [][]Value
	keys   []Expr
	vals   []Value
	inAgg  bool
	keySet map[string]Value
}

func (s *scope) lookup(c Col) (Value, error) {
	for e := s; e != nil; e = e.up {
		f := -1
		for i, k := range e.cols {
			if k.name == c.Name && (c.Tbl == "" || k.tbl == c.Tbl) {
				if f >= 0 {
					return nil, pgErr("42702", "column reference %q is ambiguous", c.Name)
				}
				f = i
			}
		}
		if f >= 0 {
			return e.row[f], nil
		}
	}
	n := c.Name
	if c.Tbl != "" {
		n = c.Tbl + "." + n
	}
	return nil, pgErr("42703", "column %q does not exist", n)
}

func exprKey(e Expr) string { return fmt.Sprintf("%s", dump(e)) }

func dump(e Expr) string {
	switch x := e.(type) {
	case nil:
		return "nil"
	case Lit:
		return fmt.Sprintf("L(%T:%s)", x.V, textOf(x.V))
	case Param:
		return "$" + strconv.Itoa(x.N)
	case Col:
		return "C(" + x.Name + ")"
	case *Bin:
		return "(" + dump(x.L) + x.Op + dump(x.R) + ")"
	case *Cast:
		return dump(x.E) + "::" + x.Typ
	case *Un:
		return x.Op + dump(x.E)
	case *Func:
		s := x.Name + "("
		for _, a := range x.Args {
			s += dump(a) + ","
		}
		return s + ")"
	case *Extract:
		return "extract(" + x.Field + dump(x.E) + ")"
	}
	return fmt.Sprintf("%p", e)
}

var aggs = map[string]bool{"count": true, "sum": true, "min": true, "max": true, "avg": true, "array_agg": true, "string_agg": true, "bool_or": true, "bool_and": true, "jsonb_agg": true}

func hasAgg(e Expr) bool {
	f := false
	walk(e, func(x Expr) bool {
		if fn, ok := x.(*Func); ok && aggs[fn.Name] && fn.Over == nil {
			f = true
		}
		return !f
	})
	return f
}

func hasWin(e Expr) bool {
	f := false
	walk(e, func(x Expr) bool {
		if fn, ok := x.(*Func); ok && fn.Over != nil {
			f = true
		}
		return !f
	})
	return f
}

// walk visits e without descending into subqueries.
func walk(e Expr, v func(Expr) bool) {
	if e == nil || !v(e) {
		return
	}
	switch x := e.(type) {
	case *Bin:
		walk(x.L, v)
		walk(x.R, v)
	case *Un:
		walk(x.E, v)
	case *IsNull:
		walk(x.E, v)
	case *IsBool:
		walk(x.E, v)
	case *In:
		walk(x.E, v)
		for _, a := range x.List {
			walk(a, v)
		}
	case *Between:
		walk(x.E, v)
		walk(x.Lo, v)
		walk(x.Hi, v)
	case *Like:
		walk(x.E, v)
		walk(x.Pat, v)
	case *Quant:
		walk(x.L, v)
		walk(x.Arr, v)
	case *Case:
		walk(x.Operand, v)
		for _, w := range x.Whens {
			walk(w[0], v)
			walk(w[1], v)
		}
		walk(x.Else, v)
	case *Cast:
		walk(x.E, v)
	case *Func:
		for _, a := range x.Args {
			walk(a, v)
		}
		walk(x.Filter, v)
	case *ArrLit:
		for _, a := range x.L {
			walk(a, v)
		}
	case *RowE:
		for _, a := range x.L {
			walk(a, v)
		}
	case *Index:
		walk(x.E, v)
		walk(x.I, v)
	case *Extract:
		walk(x.E, v)
	}
}

func truth(v Value) (bool, error) {
	switch x := v.(type) {
	case nil:
		return false, nil
	case bool:
		return x, nil
	case Unknown:
		b, err := cast(x, "bool")
		if err != nil {
			return false, err
		}
		return b.(bool), nil
	}
	return false, pgErr("42804", "argument of WHERE must be type boolean, not type %s", typeName(v))
}

func likeRe(p string, ins bool) (*regexp.Regexp, error) {
	var b strings.Builder
	b.WriteString("(?s")
	if ins {
		b.WriteString("i")
	}
	b.WriteString(")^")
	for i := 0; i < len(p); i++ {
		switch c := p[i]; c {
		case '%':
			b.WriteString(".*")
		case '_':
			b.WriteString(".")
		case '\\':
			i++
			if i >= len(p) {
				return nil, pgErr("22025", "LIKE pattern must not end with escape character")
			}
			b.WriteString(regexp.QuoteMeta(string(p[i])))
		default:
			j := i
			for j < len(p) && p[j] != '%' && p[j] != '_' && p[j] != '\\' {
				j++
			}
			b.WriteString(regexp.QuoteMeta(p[i:j]))
			i = j - 1
		}
	}
	b.WriteString("$")
	return regexp.Compile(b.String())
}

func (q *ctxq) eval(e Expr, s *scope) (Value, error) {
	if s != nil && s.group != nil && !s.group.inAgg {
		if v, ok := s.group.keySet[exprKey(e)]; ok {
			return v, nil
		}
	}
	switch x := e.(type) {
	case Lit:
		return x.V, nil
	case Param:
		if x.N < 1 || x.N > len(q.args) {
			return nil, pgErr("42P02", "there is no parameter $%d", x.N)
		}
		return q.args[x.N-1], nil
	case Col:
		v, err := s.lookup(x)
		return v, err
	case *RowE:
		r := Rec{}
		for _, a := range x.L {
			v, err := q.eval(a, s)
			if err != nil {
				return nil, err
			}
			r = append(r, v)
		}
		return r, nil
	case *Bin:
		return q.bin(x, s)
	case *Un:
		v, err := q.eval(x.E, s)
		if err != nil || v == nil {
			return nil, err
		}
		if x.Op == "NOT" {
			b, err := truth(v)
			return !b, err
		}
		switch n := v.(type) {
		case int64:
			return -n, nil
		case float64:
			return -n, nil
		case Num:
			return Num{new(big.Int).Neg(n.I), n.S}, nil
		case Interval:
			return -n, nil
		case Unknown:
			m, err := parseNum(string(n))
			if err != nil {
				return nil, err
			}
			return Num{new(big.Int).Neg(m.I), m.S}, nil
		}
		return nil, pgErr("42883", "operator does not exist: - %s", typeName(v))
	case *IsNull:
		v, err := q.eval(x.E, s)
		return (v == nil) != x.Not, err
	case *IsBool:
		v, err := q.eval(x.E, s)
		if err != nil {
			return nil, err
		}
		b, err := truth(v)
		return (v != nil && b == x.V) != x.Not, err
	case *In:
		v, err := q.eval(x.E, s)
		if err != nil {
			return nil, err
		}
		var vals []Value
		if x.Sub != nil {
			r, err := q.sel(x.Sub, s)
			if err != nil {
				return nil, err
			}
			for _, row := range r.rows {
				if len(row) == 1 {
					vals = append(vals, row[0])
				} else {
					vals = append(vals, Rec(row))
				}
			}
		} else {
			for _, a := range x.List {
				w, err := q.eval(a, s)
				if err != nil {
					return nil, err
				}
				vals = append(vals, w)
			}
		}
		if v == nil {
			if len(vals) == 0 {
				return x.Not, nil
			}
			return nil, nil
		}
		null := false
		for _, w := range vals {
			if w == nil {
				null = true
				continue
			}
			c, err := compare(v, w)
			if err != nil {
				return nil, err
			}
			if c == 0 {
				return !x.Not, nil
			}
		}
		if null {
			return nil, nil
		}
		return x.Not, nil
	case *Between:
		v, e1 := q.eval(x.E, s)
		lo, e2 := q.eval(x.Lo, s)
		hi, e3 := q.eval(x.Hi, s)
		for _, er := range []error{e1, e2, e3} {
			if er != nil {
				return nil, er
			}
		}
		if v == nil || lo == nil || hi == nil {
			return nil, nil
		}
		a, err := compare(v, lo)
		if err != nil {
			return nil, err
		}
		b, err := compare(v, hi)
		if err != nil {
			return nil, err
		}
		return (a >= 0 && b <= 0) != x.Not, nil
	case *Like:
		v, err := q.eval(x.E, s)
		if err != nil {
			return nil, err
		}
		p, err := q.eval(x.Pat, s)
		if err != nil {
			return nil, err
		}
		if v == nil || p == nil {
			return nil, nil
		}
		switch v.(type) {
		case string, Unknown:
		default:
			return nil, pgErr("42883", "operator does not exist: %s ~~ unknown", typeName(v))
		}
		re, err := likeRe(textOf(p), x.Ins)
		if err != nil {
			return nil, err
		}
		return re.MatchString(textOf(v)) != x.Not, nil
	case *Quant:
		v, err := q.eval(x.L, s)
		if err != nil {
			return nil, err
		}
		var arr Arr
		if x.Sub != nil {
			r, err := q.sel(x.Sub, s)
			if err != nil {
				return nil, err
			}
			for _, row := range r.rows {
				arr = append(arr, row[0])
			}
		} else {
			a, err := q.eval(x.Arr, s)
			if err != nil {
				return nil, err
			}
			switch y := a.(type) {
			case nil:
				return nil, nil
			case Arr:
				arr = y
			default:
				arr, err = parseArr(textOf(y))
				if err != nil {
					return nil, err
				}
			}
		}
		if v == nil {
			if len(arr) == 0 {
				return x.All, nil
			}
			return nil, nil
		}
		null := false
		for _, w := range arr {
			if w == nil {
				null = true
				continue
			}
			if st, ok := w.(string); ok {
				w = Unknown(st)
			}
			c, err := compare(v, w)
			if err != nil {
				return nil, err
			}
			ok := cmpOp(x.Op, c)
			if ok && !x.All {
				return true, nil
			}
			if !ok && x.All {
				return false, nil
			}
		}
		if null {
			return nil, nil
		}
		return x.All, nil
	case *Case:
		for _, w := range x.Whens {
			var c Value
			var err error
			if x.Operand != nil {
				c, err = q.bin(&Bin{"=", x.Operand, w[0]}, s)
			} else {
				c, err = q.eval(w[0], s)
			}
			if err != nil {
				return nil, err
			}
			b, err := truth(c)
			if err != nil {
				return nil, err
			}
			if b {
				return q.eval(w[1], s)
			}
		}
		if x.Else == nil {
			return nil, nil
		}
		return q.eval(x.Else, s)
	case *Cast:
		v, err := q.eval(x.E, s)
		if err != nil {
			return nil, err
		}
		return cast(v, x.Typ)
	case *ArrLit:
		a := Arr{}
		for _, i := range x.L {
			v, err := q.eval(i, s)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
		return a, nil
	case *ArrSub:
		r, err := q.sel(x.S, s)
		if err != nil {
			return nil, err
		}
		a := Arr{}
		for _, row := range r.rows {
			a = append(a, row[0])
		}
		return a, nil
	case *Index:
		v, err := q.eval(x.E, s)
		if err != nil {
			return nil, err
		}
		i, err := q.eval(x.I, s)
		if err != nil {
			return nil, err
		}
		a, ok := v.(Arr)
		n, err2 := cast(i, "bigint")
		if !ok || err2 != nil || n == nil {
			return nil, nil
		}
		k := n.(int64)
		if k < 1 || int(k) > len(a) {
			return nil, nil
		}
		return a[k-1], nil
	case *SubQ:
		r, err := q.sel(x.S, s)
		if err != nil {
			return nil, err
		}
		if len(r.rows) == 0 {
			return nil, nil
		}
		if len(r.rows) > 1 {
			return nil, pgErr("21000", "more than one row returned by a subquery used as an expression")
		}
		if len(r.rows[0]) > 1 {
			return Rec(r.rows[0]), nil
		}
		return r.rows[0][0], nil
	case *Exists:
		r, err := q.sel(x.S, s)
		if err != nil {
			return nil, err
		}
		return len(r.rows) > 0, nil
	case *Extract:
		v, err := q.eval(x.E, s)
		if err != nil || v == nil {
			return nil, err
		}
		if iv, ok := v.(Interval); ok {
			return parseNum(strconv.FormatFloat(time.Duration(iv).Seconds(), 'f', 6, 64))
		}
		t, ok := v.(TS)
		if !ok {
			return nil, unsupported("extract from %s", typeName(v))
		}
		switch strings.ToLower(x.Field) {
		case "epoch":
			return Num{big.NewInt(t.T.UnixMicro()), 6}, nil
		case "year":
			return NumFromInt(int64(t.T.Year())), nil
		case "month":
			return NumFromInt(int64(t.T.Month())), nil
		case "day":
			return NumFromInt(int64(t.T.Day())), nil
		case "hour":
			return NumFromInt(int64(t.T.Hour())), nil
		}
		return nil, unsupported("extract %s", x.Field)
	case *Func:
		return q.fn(x, s)
	case Star:
		return nil, pgErr("42601", "syntax error at or near \"*\"")
	}
	return nil, unsupported("expression %T", e)
}

func cmpOp(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	case ">=":
		return c >= 0
	}
	return false
}

func (q *ctxq) bin(x *Bin, s *scope) (Value, error) {
	l, err := q.eval(x.L, s)
	if err != nil {
		return nil, err
	}
	switch x.Op {
	case "AND", "OR":
		lb, err := truth(l)
		if err != nil {
			return nil, err
		}
		if x.Op == "AND" && l != nil && !lb {
			return false, nil
		}
		if x.Op == "OR" && lb {
			return true, nil
		}
		r, err := q.eval(x.R, s)
		if err != nil {
			return nil, err
		}
		rb, err := truth(r)
		if err != nil {
			return nil, err
		}
		if x.Op == "AND" {
			if r != nil && !rb {
				return false, nil
			}
			if l == nil || r == nil {
				return nil, nil
			}
			return true, nil
		}
		if rb {
			return true, nil
		}
		if l == nil || r == nil {
			return nil, nil
		}
		return false, nil
	}
	r, err := q.eval(x.R, s)
	if err != nil {
		return nil, err
	}
	switch x.Op {
	case "DISTINCT":
		return distinct(l, r), nil
	case "NOTDISTINCT":
		return !distinct(l, r), nil
	}
	if l == nil || r == nil {
		return nil, nil
	}
	switch x.Op {
	case "=", "<>", "<", ">", "<=", ">=":
		c, err := compare(l, r)
		if err != nil {
			return nil, err
		}
		return cmpOp(x.Op, c), nil
	case "||":
		if lj, ok := l.(JSON); ok {
			rj, err := cast(r, "jsonb")
			if err != nil {
				return nil, err
			}
			return jsonConcat(lj, rj.(JSON))
		}
		if rj, ok := r.(JSON); ok {
			lj, err := cast(l, "jsonb")
			if err != nil {
				return nil, err
			}
			return jsonConcat(lj.(JSON), rj)
		}
		if la, ok := l.(Arr); ok {
			if ra, ok := r.(Arr); ok {
				return append(append(Arr{}, la...), ra...), nil
			}
			return append(append(Arr{}, la...), r), nil
		}
		return textOf(l) + textOf(r), nil
	case "->", "->>":
		j, err := asJSON(l)
		if err != nil {
			return nil, err
		}
		var out interface{}
		ok := false
		switch c := j.V.(type) {
		case map[string]interface{}:
			if _, isInt := r.(int64); !isInt {
				out, ok = c[textOf(r)]
			}
		case []interface{}:
			if i, err := strconv.Atoi(textOf(r)); err == nil {
				if i < 0 {
					i += len(c)
				}
				if i >= 0 && i < len(c) {
					out, ok = c[i], true
				}
			}
		}
		if !ok {
			return nil, nil
		}
		return jsonOut(out, x.Op == "->>"), nil
	case "#>", "#>>":
		j, err := asJSON(l)
		if err != nil {
			return nil, err
		}
		p, err := cast(r, "text[]")
		if err != nil {
			return nil, err
		}
		v := j.V
		for _, k := range p.(Arr) {
			switch c := v.(type) {
			case map[string]interface{}:
				n, ok := c[textOf(k)]
				if !ok {
					return nil, nil
				}
				v = n
			case []interface{}:
				i, err := strconv.Atoi(textOf(k))
				if err != nil || i < 0 || i >= len(c) {
					return nil, nil
				}
				v = c[i]
			default:
				return nil, nil
			}
		}
		return jsonOut(v, x.Op == "#>>"), nil
	case "@>", "<@":
		if la, ok := l.(Arr); ok {
			rr, err := cast(r, "text[]")
			if err != nil {
				return nil, err
			}
			a, b := la, rr.(Arr)
			if x.Op == "<@" {
				a, b = b, a
			}
			for _, w := range b {
				f := false
				for _, u := range a {
					if !distinct(u, w) {
						f = true
					}
				}
				if !f {
					return false, nil
				}
			}
			return true, nil
		}
		a, err := cast(l, "jsonb")
		if err != nil {
			return nil, err
		}
		b, err := cast(r, "jsonb")
		if err != nil {
			return nil, err
		}
		if x.Op == "<@" {
			a, b = b, a
		}
		return jsonContains(a.(JSON).V, b.(JSON).V), nil
	case "?", "?|", "?&":
		j, err := asJSON(l)
		if err != nil {
			return nil, err
		}
		keys := Arr{r}
		if x.Op != "?" {
			k, err := cast(r, "text[]")
			if err != nil {
				return nil, err
			}
			keys = k.(Arr)
		}
		any, all := false, true
		for _, k := range keys {
			has := false
			switch c := j.V.(type) {
			case map[string]interface{}:
				_, has = c[textOf(k)]
			case []interface{}:
				for _, e := range c {
					if st, ok := e.(string); ok && st == textOf(k) {
						has = true
					}
				}
			case string:
				has = c == textOf(k)
			}
			any = any || has
			all = all && has
		}
		if x.Op == "?&" {
			return all, nil
		}
		return any, nil
	case "~", "~*", "!~", "!~*":
		p := textOf(r)
		if strings.HasSuffix(x.Op, "*") {
			p = "(?i)" + p
		}
		re, err := regexp.Compile(p)
		if err != nil {
			return nil, pgErr("2201B", "invalid regular expression")
		}
		return re.MatchString(textOf(l)) != strings.HasPrefix(x.Op, "!"), nil
	case "+", "-", "*", "/", "%":
		return arith(x.Op, l, r)
	}
	return nil, unsupported("operator %s", x.Op)
}

func asJSON(v Value) (JSON, error) {
	if j, ok := v.(JSON); ok {
		return j, nil
	}
	if u, ok := v.(Unknown); ok {
		return parseJSON(string(u))
	}
	return JSON{}, pgErr("42883", "operator does not exist: %s -> unknown", typeName(v))
}

func jsonOut(v interface{}, text bool) Value {
	if !text {
		return JSON{v}
	}
	switch x := v.(type) {
	case nil:
		return nil
	case string:
		return x
	}
	return jsonText(v)
}

func jsonConcat(a, b JSON) (Value, error) {
	am, ok1 := a.V.(map[string]interface{})
	bm, ok2 := b.V.(map[string]interface{})
	if ok1 && ok2 {
		m := map[string]interface{}{}
		for k, v := range am {
			m[k] = v
		}
		for k, v := range bm {
			m[k] = v
		}
		return JSON{m}, nil
	}
	al, o1 := a.V.([]interface{})
	bl, o2 := b.V.([]interface{})
	if !o1 {
		al = []interface{}{a.V}
	}
	if !o2 {
		bl = []interface{}{b.V}
	}
	return JSON{append(append([]interface{}{}, al...), bl...)}, nil
}

func arith(op string, l, r Value) (Value, error) {
	if t, ok := l.(TS); ok {
		switch y := r.(type) {
		case TS:
			if op == "-" {
				return Interval(t.T.Sub(y.T)), nil
			}
		case Interval, Unknown, string:
			iv, err := cast(y, "interval")
			if err != nil {
				return nil, err
			}
			d := time.Duration(iv.(Interval))
			if op == "-" {
				d = -d
			}
			return TS{T: t.T.Add(d), TZ: t.TZ}, nil
		}
	}
	if iv, ok := l.(Interval); ok {
		switch y := r.(type) {
		case Interval:
			if op == "-" {
				return iv - y, nil
			}
			return iv + y, nil
		case TS:
			return arith(op, r, l)
		case int64:
			if op == "*" {
				return Interval(int64(iv) * y), nil
			}
		}
	}
	if _, ok := l.(JSON); ok && op == "-" {
		m, ok := l.(JSON).V.(map[string]interface{})
		if ok {
			c := map[string]interface{}{}
			for k, v := range m {
				if k != textOf(r) {
					c[k] = v
				}
			}
			return JSON{c}, nil
		}
	}
	if iv, ok := r.(Interval); ok && op == "*" {
		return arith(op, iv, l)
	}
	if isUnknown(l) && isNumeric(r) {
		v, err := cast(l, typeName(r))
		if err != nil {
			return nil, err
		}
		l = v
	}
	if isUnknown(r) && isNumeric(l) {
		v, err := cast(r, typeName(l))
		if err != nil {
			return nil, err
		}
		r = v
	}
	if isUnknown(l) && isUnknown(r) {
		a, e1 := parseNum(textOf(l))
		b, e2 := parseNum(textOf(r))
		if e1 != nil || e2 != nil {
			return nil, pgErr("42725", "operator is not unique: unknown %s unknown", op)
		}
		l, r = a, b
	}
	if !isNumeric(l) || !isNumeric(r) {
		return nil, pgErr("42883", "operator does not exist: %s %s %s", typeName(l), op, typeName(r))
	}
	_, fl := l.(float64)
	_, fr := r.(float64)
	if fl || fr {
		a, _ := strconv.ParseFloat(textOf(l), 64)
		b, _ := strconv.ParseFloat(textOf(r), 64)
		switch op {
		case "+":
			return a + b, nil
		case "-":
			return a - b, nil
		case "*":
			return a * b, nil
		case "/":
			if b == 0 {
				return nil, pgErr("22012", "division by zero")
			}
			return a / b, nil
		}
		return nil, unsupported("float %s", op)
	}
	li, il := l.(int64)
	ri, ir := r.(int64)
	if il && ir {
		a, b := big.NewInt(li), big.NewInt(ri)
		z := new(big.Int)
		switch op {
		case "+":
			z.Add(a, b)
		case "-":
			z.Sub(a, b)
		case "*":
			z.Mul(a, b)
		case "/", "%":
			if ri == 0 {
				return nil, pgErr("22012", "division by zero")
			}
			if op == "/" {
				z.Quo(a, b)
			} else {
				z.Rem(a, b)
			}
		}
		if !z.IsInt64() {
			return nil, pgErr("22003", "bigint out of range")
		}
		return z.Int64(), nil
	}
	a, b := toNum(l), toNum(r)
	switch op {
	case "+", "-":
		x, y, sc := align(a, b)
		if op == "+" {
			return Num{bigAdd(x, y), sc}, nil
		}
		return Num{bigSub(x, y), sc}, nil
	case "*":
		return Num{new(big.Int).Mul(a.I, b.I), a.S + b.S}, nil
	case "/":
		if b.I.Sign() == 0 {
			return nil, pgErr("22012", "division by zero")
		}
		sc := 16
		if a.S > sc {
			sc = a.S
		}
		if b.S > sc {
			sc = b.S
		}
		n := new(big.Int).Mul(a.I, pow10(sc+1+b.S))
		d := new(big.Int).Mul(b.I, pow10(a.S))
		return Num{n.Quo(n, d), sc + 1}.round(sc), nil
	case "%":
		if b.I.Sign() == 0 {
			return nil, pgErr("22012", "division by zero")
		}
		x, y, sc := align(a, b)
		return Num{new(big.Int).Rem(x, y), sc}, nil
	}
	return nil, unsupported("operator %s", op)
}

func (q *ctxq) agg(x *Func, s *scope) (Value, error) {
	g := s.group
	if g == nil || g.inAgg {
		return nil, pgErr("42803", "aggregate functions are not allowed here")
	}
	g.inAgg = true
	defer func() { g.inAgg = false }()
	var vals []Value
	type ov struct {
		v Value
		k []Value
	}
	var ovs []ov
	seen := map[string]bool{}
	for _, row := range g.rows {
		rs := &scope{cols: s.cols, row: row, up: s.up}
		if x.Filter != nil {
			f, err := q.eval(x.Filter, rs)
			if err != nil {
				return nil, err
			}
			if b, err := truth(f); err != nil || !b {
				if err != nil {
					return nil, err
				}
				continue
			}
		}
		if x.Star {
			vals = append(vals, true)
			continue
		}
		v, err := q.eval(x.Args[0], rs)
		if err != nil {
			return nil, err
		}
		if v == nil && x.Name != "array_agg" {
			continue
		}
		if x.Distinct {
			k := textOf(v)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		o := ov{v: v}
		for _, oi := range x.Order {
			k, err := q.eval(oi.E, rs)
			if err != nil {
				return nil, err
			}
			o.k = append(o.k, k)
		}
		ovs = append(ovs, o)
		vals = append(vals, v)
	}
	if len(x.Order) > 0 {
		sort.SliceStable(ovs, func(i, j int) bool { return lessKeys(ovs[i].k, ovs[j].k, x.Order) })
		vals = nil
		for _, o := range ovs {
			vals = append(vals, o.v)
		}
	}
	switch x.Name {
	case "count":
		return int64(len(vals)), nil
	case "sum", "avg":
		if len(vals) == 0 {
			return nil, nil
		}
		var acc Value
		for i, v := range vals {
			if iv, ok := v.(int64); ok {
				v = NumFromInt(iv)
			}
			if i == 0 {
				acc = v
				continue
			}
			var err error
			acc, err = arith("+", acc, v)
			if err != nil {
				return nil, err
			}
		}
		if x.Name == "avg" {
			return arith("/", acc, NumFromInt(int64(len(vals))))
		}
		return acc, nil
	case "min", "max":
		var best Value
		for _, v := range vals {
			if best == nil {
				best = v
				continue
			}
			c, err := compare(v, best)
			if err != nil {
				return nil, err
			}
			if x.Name == "min" && c < 0 || x.Name == "max" && c > 0 {
				best = v
			}
		}
		return best, nil
	case "array_agg":
		if len(vals) == 0 {
			return nil, nil
		}
		return Arr(vals), nil
	case "string_agg":
		if len(vals) == 0 {
			return nil, nil
		}
		sep, err := q.eval(x.Args[1], s)
		if err != nil {
			return nil, err
		}
		var ss []string
		for _, v := range vals {
			ss = append(ss, textOf(v))
		}
		return strings.Join(ss, textOf(sep)), nil
	case "bool_or", "bool_and":
		if len(vals) == 0 {
			return nil, nil
		}
		r := x.Name == "bool_and"
		for _, v := range vals {
			b, err := truth(v)
			if err != nil {
				return nil, err
			}
			if x.Name == "bool_or" {
				r = r || b
			} else {
				r = r && b
			}
		}
		return r, nil
	}
	return nil, unsupported("aggregate %s", x.Name)
}

func (q *ctxq) fn(x *Func, s *scope) (Value, error) {
	if x.Over != nil {
		if s != nil {
			if v, ok := s.wins[x]; ok {
				return v, nil
			}
		}
		return nil, pgErr("42P20", "window functions are not allowed here")
	}
	if aggs[x.Name] {
		sc := s
		for sc != nil && sc.group == nil {
			sc = sc.up
		}
		if sc == nil {
			return nil, pgErr("42803", "aggregate functions are not allowed in WHERE")
		}
		return q.agg(x, sc)
	}
	if x.Name == "coalesce" {
		var typed Value
		for _, a := range x.Args {
			v, err := q.eval(a, s)
			if err != nil {
				return nil, err
			}
			if v != nil {
				typed = v
				break
			}
		}
		return typed, nil
	}
	var a []Value
	for _, e := range x.Args {
		v, err := q.eval(e, s)
		if err != nil {
			return nil, err
		}
		a = append(a, v)
	}
	switch x.Name {
	case "now", "current_timestamp", "transaction_timestamp", "statement_timestamp", "clock_timestamp":
		t := q.tx.now
		if x.Name == "clock_timestamp" {
			t = q.db.now()
		}
		return TS{T: t, TZ: true}, nil
	case "localtimestamp":
		return TS{T: q.tx.now}, nil
	case "current_date":
		return cast(TS{T: q.tx.now}, "date")
	case "timezone":
		if len(a) == 2 && a[1] != nil {
			if !strings.EqualFold(textOf(a[0]), "utc") {
				return nil, unsupported("time zone %s", textOf(a[0]))
			}
			t, ok := a[1].(TS)
			if !ok {
				v, err := cast(a[1], "timestamptz")
				if err != nil {
					return nil, err
				}
				t = v.(TS)
			}
			return TS{T: t.T, TZ: !t.TZ}, nil
		}
		return nil, nil
	case "take_daily_balance_snapshots_batched":
		n, err := cast(a[0], "bigint")
		if err != nil {
			return nil, err
		}
		if n == nil {
			return nil, nil
		}
		return q.db.takeSnapshots(q.tx, n.(int64))
	case "greatest", "least":
		var best Value
		for _, v := range a {
			if v == nil {
				continue
			}
			if best == nil {
				best = v
				continue
			}
			c, err := compare(v, best)
			if err != nil {
				return nil, err
			}
			if x.Name == "least" && c < 0 || x.Name == "greatest" && c > 0 {
				best = v
			}
		}
		return best, nil
	case "nullif":
		if a[0] == nil || a[1] == nil {
			return a[0], nil
		}
		c, err := compare(a[0], a[1])
		if err != nil {
			return nil, err
		}
		if c == 0 {
			return nil, nil
		}
		return a[0], nil
	case "pg_try_advisory_lock", "pg_advisory_unlock", "pg_advisory_lock", "pg_try_advisory_xact_lock", "pg_advisory_xact_lock":
		return nil, unsupported("advisory locks")
	case "jsonb_build_object":
		m := map[string]interface{}{}
		for i := 0; i+1 < len(a); i += 2 {
			m[textOf(a[i])] = toJ(a[i+1])
		}
		return JSON{m}, nil
	case "gen_random_uuid", "uuid_generate_v4":
		return fmt.Sprintf("%08x-0000-4000-8000-%012x", q.db.txSeq, q.db.now().UnixMicro()&0xffffffffffff), nil
	case "concat":
		var b strings.Builder
		for _, v := range a {
			b.WriteString(textOf(v))
		}
		return b.String(), nil
	}
	for _, v := range a {
		if v == nil {
			return nil, nil // strict functions
		}
	}
	switch x.Name {
	case "jsonb_typeof", "json_typeof":
		j, err := asJSON(a[0])
		if err != nil {
			return nil, err
		}
		switch j.V.(type) {
		case nil:
			return "null", nil
		case map[string]interface{}:
			return "object", nil
		case []interface{}:
			return "array", nil
		case string:
			return "string", nil
		case bool:
			return "boolean", nil
		}
		return "number", nil
	case "jsonb_array_length":
		j, err := asJSON(a[0])
		if err != nil {
			return nil, err
		}
		if l, ok := j.V.([]interface{}); ok {
			return int64(len(l)), nil
		}
		return nil, pgErr("22023", "cannot get array length of a non-array")
	case "to_jsonb":
		return JSON{toJ(a[0])}, nil
	case "jsonb_set":
		j, err := asJSON(a[0])
		if err != nil {
			return nil, err
		}
		p, err := cast(a[1], "text[]")
		if err != nil {
			return nil, err
		}
		nv, err := asJSON(a[2])
		if err != nil {
			return nil, err
		}
		create := len(a) < 4 || a[3] == true
		return JSON{jset(j.V, p.(Arr), nv.V, create)}, nil
	case "lower":
		return strings.ToLower(textOf(a[0])), nil
	case "upper":
		return strings.ToUpper(textOf(a[0])), nil
	case "trim", "btrim":
		return strings.TrimSpace(textOf(a[0])), nil
	case "length", "char_length":
		return int64(len([]rune(textOf(a[0])))), nil
	case "left":
		n, _ := cast(a[1], "bigint")
		r := []rune(textOf(a[0]))
		k := int(n.(int64))
		if k > len(r) {
			k = len(r)
		}
		if k < 0 {
			k = 0
		}
		return string(r[:k]), nil
	case "right":
		n, _ := cast(a[1], "bigint")
		r := []rune(textOf(a[0]))
		k := int(n.(int64))
		if k > len(r) {
			k = len(r)
		}
		return string(r[len(r)-k:]), nil
	case "replace":
		return strings.ReplaceAll(textOf(a[0]), textOf(a[1]), textOf(a[2])), nil
	case "repeat":
		n, _ := cast(a[1], "bigint")
		return strings.Repeat(textOf(a[0]), int(n.(int64))), nil
	case "substring", "substr":
		r := []rune(textOf(a[0]))
		f, _ := cast(a[1], "bigint")
		st := int(f.(int64)) - 1
		en := len(r)
		if len(a) > 2 {
			l, _ := cast(a[2], "bigint")
			en = st + int(l.(int64))
		}
		if st < 0 {
			st = 0
		}
		if en > len(r) {
			en = len(r)
		}
		if st > en {
			return "", nil
		}
		return string(r[st:en]), nil
	case "position", "strpos":
		return int64(strings.Index(textOf(a[0]), textOf(a[1])) + 1), nil
	case "split_part":
		p := strings.Split(textOf(a[0]), textOf(a[1]))
		n, _ := cast(a[2], "bigint")
		if k := int(n.(int64)); k >= 1 && k <= len(p) {
			return p[k-1], nil
		}
		return "", nil
	case "abs":
		if isUnknown(a[0]) {
			n, err := parseNum(textOf(a[0]))
			if err != nil {
				return nil, err
			}
			a[0] = n
		}
		switch n := a[0].(type) {
		case int64:
			if n < 0 {
				return -n, nil
			}
			return n, nil
		case Num:
			return Num{new(big.Int).Abs(n.I), n.S}, nil
		case float64:
			if n < 0 {
				return -n, nil
			}
			return n, nil
		}
	case "round", "trunc", "floor", "ceil", "ceiling":
		n := toNum(a[0])
		sc := 0
		if len(a) > 1 {
			k, _ := cast(a[1], "bigint")
			sc = int(k.(int64))
		}
		switch x.Name {
		case "round":
			return n.round(sc), nil
		default:
			d := pow10(n.S)
			qv, m := new(big.Int).DivMod(n.I, d, new(big.Int))
			if x.Name == "trunc" && n.I.Sign() < 0 && m.Sign() != 0 || strings.HasPrefix(x.Name, "ceil") && m.Sign() != 0 {
				qv.Add(qv, big.NewInt(1))
			}
			return Num{qv, 0}, nil
		}
	case "date_trunc":
		t, ok := a[1].(TS)
		if !ok {
			return nil, unsupported("date_trunc on %s", typeName(a[1]))
		}
		u := t.T.UTC()
		switch strings.ToLower(textOf(a[0])) {
		case "day":
			u = time.Date(u.Year(), u.Month(), u.Day(), 0, 0, 0, 0, time.UTC)
		case "hour":
			u = u.Truncate(time.Hour)
		case "minute":
			u = u.Truncate(time.Minute)
		case "second":
			u = u.Truncate(time.Second)
		case "month":
			u = time.Date(u.Year(), u.Month(), 1, 0, 0, 0, 0, time.UTC)
		default:
			return nil, unsupported("date_trunc %s", textOf(a[0]))
		}
		return TS{T: u, TZ: t.TZ}, nil
	case "array_length", "cardinality":
		arr, ok := a[0].(Arr)
		if !ok {
			return nil, unsupported("array_length")
		}
		if len(arr) == 0 && x.Name == "array_length" {
			return nil, nil
		}
		return int64(len(arr)), nil
	case "to_timestamp":
		if isNumeric(a[0]) {
			f, _ := strconv.ParseFloat(textOf(a[0]), 64)
			return TS{T: time.UnixMicro(int64(f * 1e6)).UTC(), TZ: true}, nil
		}
	case "make_interval":
		return nil, unsupported("make_interval")
	case "pg_notify":
		return nil, nil
	}
	return nil, unsupported("function %s/%d", x.Name, len(a))
}

func toJ(v Value) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case JSON:
		return x.V
	case bool:
		return x
	case int64, Num, float64:
		return jsonNum(textOf(x))
	}
	return textOf(v)
}

func jset(v interface{}, p Arr, nv interface{}, create bool) interface{} {
	if len(p) == 0 {
		return nv
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}
	out := map[string]interface{}{}
	for k, e := range m {
		out[k] = e
	}
	k := textOf(p[0])
	old, has := out[k]
	if len(p) == 1 {
		if has || create {
			out[k] = nv
		}
		return out
	}
	if has {
		out[k] = jset(old, p[1:], nv, create)
	}
	return out
}

func lessKeys(a, b []Value, o []OrderItem) bool {
	for i := range o {
		x, y := a[i], b[i]
		if x == nil && y == nil {
			continue
		}
		nf := o[i].Desc
		if o[i].NullsFirst != nil {
			nf = *o[i].NullsFirst
		}
		if x == nil {
			return nf
		}
		if y == nil {
			return !nf
		}
		c, err := compare(x, y)
		if err != nil || c == 0 {
			continue
		}
		if o[i].Desc {
			c = -c
		}
		return c < 0
	}
	return false
}
