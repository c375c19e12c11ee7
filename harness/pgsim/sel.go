package pgsim

import (
	"encoding/json"
	"sort"
	"strings"
)

func jsonNum(s string) json.Number { return json.Number(s) }

func (q *ctxq) table(n string) (*Table, error) {
	t, ok := q.db.tables[strings.ToLower(n)]
	if !ok {
		return nil, pgErr("42P01", "relation %q does not exist", "blnk."+n)
	}
	return t, nil
}

func (q *ctxq) runWith(w []CTE, s *scope) (*ctxq, error) {
	if len(w) == 0 {
		return q, nil
	}
	n := &ctxq{db: q.db, tx: q.tx, args: q.args, ctes: map[string]*rel{}, up: q, ctx: q.ctx}
	for _, c := range w {
		if c.Rec {
			if sel, ok := c.Stmt.(*Select); ok && sel.SetOp != "" {
				return nil, unsupported("recursive CTE")
			}
		}
		r, _, err := n.exec(c.Stmt, s)
		if err != nil {
			return nil, err
		}
		cp := &rel{rows: r.rows, cols: make([]colref, len(r.cols))}
		for i, k := range r.cols {
			cp.cols[i] = colref{c.Name, k.name}
			if i < len(c.Cols) {
				cp.cols[i].name = c.Cols[i]
			}
		}
		n.ctes[c.Name] = cp
	}
	return n, nil
}

func (q *ctxq) scan(name, alias string) (*rel, error) {
	if r := q.cte(name); r != nil {
		o := &rel{rows: r.rows, cols: make([]colref, len(r.cols))}
		for i, c := range r.cols {
			o.cols[i] = colref{alias, c.name}
		}
		o.src = make([][]baseRow, len(r.rows))
		return o, nil
	}
	t, err := q.table(name)
	if err != nil {
		return nil, err
	}
	o := &rel{}
	for _, c := range t.Cols {
		o.cols = append(o.cols, colref{alias, c.Name})
	}
	for _, r := range t.Rows {
		img := q.tx.vis(t, r)
		if q.tx.isoRR && !(r.owner == q.tx && r.hasPend) {
			img = q.tx.rrImage(t, r)
		}
		if img != nil {
			o.rows = append(o.rows, img)
			o.src = append(o.src, []baseRow{{alias, t, r}})
		}
	}
	return o, nil
}

func (q *ctxq) from(f FromItem, left *scope) (*rel, error) {
	switch x := f.(type) {
	case *TableRef:
		return q.scan(x.Name, x.Alias)
	case *SubRef:
		r, _, err := q.exec(x.S, left)
		if err != nil {
			return nil, err
		}
		o := &rel{rows: r.rows, src: r.src}
		if o.src == nil {
			o.src = make([][]baseRow, len(r.rows))
		}
		for i, c := range r.cols {
			n := c.name
			if i < len(x.Cols) {
				n = x.Cols[i]
			}
			o.cols = append(o.cols, colref{x.Alias, n})
		}
		return o, nil
	case *FuncRef:
		nm := x.Alias
		if len(x.Cols) > 0 {
			nm = x.Cols[0]
		}
		o := &rel{cols: []colref{{x.Alias, nm}}}
		var args []Value
		for _, a := range x.F.Args {
			v, err := q.eval(a, left)
			if err != nil {
				return nil, err
			}
			args = append(args, v)
		}
		switch x.F.Name {
		case "unnest":
			var cols []Arr
			n := 0
			for _, a := range args {
				if a == nil {
					cols = append(cols, nil)
					continue
				}
				arr, ok := a.(Arr)
				if !ok {
					var err error
					arr, err = parseArr(textOf(a))
					if err != nil {
						return nil, err
					}
				}
				cols = append(cols, arr)
				if len(arr) > n {
					n = len(arr)
				}
			}
			o.cols = nil
			for i := range cols {
				c := nm
				if i < len(x.Cols) {
					c = x.Cols[i]
				}
				o.cols = append(o.cols, colref{x.Alias, c})
			}
			for i := 0; i < n; i++ {
				row := make([]Value, len(cols))
				for j, c := range cols {
					if i < len(c) {
						row[j] = c[i]
					}
				}
				o.rows = append(o.rows, row)
			}
		case "generate_series":
			a, e1 := cast(args[0], "bigint")
			b, e2 := cast(args[1], "bigint")
			if e1 != nil || e2 != nil {
				return nil, unsupported("generate_series")
			}
			for i := a.(int64); i <= b.(int64); i++ {
				o.rows = append(o.rows, []Value{i})
			}
		case "jsonb_array_elements", "jsonb_array_elements_text":
			j, err := asJSON(args[0])
			if err != nil {
				return nil, err
			}
			l, ok := j.V.([]interface{})
			if !ok {
				return nil, pgErr("22023", "cannot extract elements from a non-array")
			}
			for _, e := range l {
				o.rows = append(o.rows, []Value{jsonOut(e, strings.HasSuffix(x.F.Name, "_text"))})
			}
		case "jsonb_each_text", "jsonb_each", "jsonb_object_keys":
			j, err := asJSON(args[0])
			if err != nil {
				return nil, err
			}
			m, _ := j.V.(map[string]interface{})
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if x.F.Name == "jsonb_object_keys" {
				for _, k := range ks {
					o.rows = append(o.rows, []Value{k})
				}
			} else {
				o.cols = []colref{{x.Alias, "key"}, {x.Alias, "value"}}
				for _, k := range ks {
					o.rows = append(o.rows, []Value{k, jsonOut(m[k], x.F.Name == "jsonb_each_text")})
				}
			}
		default:
			v, err := q.fn(x.F, left)
			if err != nil {
				return nil, err
			}
			o.rows = [][]Value{{v}}
		}
		o.src = make([][]baseRow, len(o.rows))
		return o, nil
	case *Join:
		l, err := q.from(x.L, left)
		if err != nil {
			return nil, err
		}
		return q.join(l, x, left)
	}
	return nil, unsupported("from item %T", f)
}

func cat(a, b []Value) []Value {
	o := make([]Value, 0, len(a)+len(b))
	return append(append(o, a...), b...)
}
func catb(a, b []baseRow) []baseRow {
	o := make([]baseRow, 0, len(a)+len(b))
	return append(append(o, a...), b...)
}

func isLateral(f FromItem) bool {
	switch x := f.(type) {
	case *SubRef:
		return x.Lateral
	case *FuncRef:
		return true
	}
	return false
}

func (q *ctxq) join(l *rel, x *Join, up *scope) (*rel, error) {
	if x.Kind == "RIGHT" {
		r, err := q.from(x.R, up)
		if err != nil {
			return nil, err
		}
		nl := len(l.cols)
		sw, err := q.joinRels(r, func([]Value) (*rel, error) { return l, nil }, l.cols, "LEFT", x.On, x.Using, up)
		if err != nil {
			return nil, err
		}
		_ = nl
		return sw, nil
	}
	if x.Kind == "FULL" {
		return nil, unsupported("FULL JOIN")
	}
	var fixed *rel
	get := func(row []Value) (*rel, error) {
		if isLateral(x.R) {
			return q.from(x.R, &scope{cols: l.cols, row: row, up: up})
		}
		if fixed == nil {
			f, err := q.from(x.R, up)
			if err != nil {
				return nil, err
			}
			fixed = f
		}
		return fixed, nil
	}
	var rcols []colref
	if len(l.rows) == 0 {
		r0, err := get(make([]Value, len(l.cols)))
		if err != nil {
			return nil, err
		}
		rcols = r0.cols
	}
	return q.joinRels(l, get, rcols, x.Kind, x.On, x.Using, up)
}

func (q *ctxq) joinRels(l *rel, get func([]Value) (*rel, error), rcols []colref, kind string, on Expr, using []string, up *scope) (*rel, error) {
	o := &rel{}
	var rs []*rel
	for _, row := range l.rows {
		r, err := get(row)
		if err != nil {
			return nil, err
		}
		rs = append(rs, r)
		rcols = r.cols
	}
	o.cols = append(append([]colref{}, l.cols...), rcols...)
	for i, row := range l.rows {
		hit := false
		for j, rr := range rs[i].rows {
			full := cat(row, rr)
			if kind != "CROSS" {
				ok := true
				if on != nil {
					v, err := q.eval(on, &scope{cols: o.cols, row: full, up: up})
					if err != nil {
						return nil, err
					}
					ok, err = truth(v)
					if err != nil {
						return nil, err
					}
				}
				for _, u := range using {
					var a, b Value
					for k, c := range l.cols {
						if c.name == u {
							a = row[k]
						}
					}
					for k, c := range rcols {
						if c.name == u {
							b = rr[k]
						}
					}
					if a == nil || b == nil || distinct(a, b) {
						ok = false
					}
				}
				if !ok {
					continue
				}
			}
			hit = true
			o.rows = append(o.rows, full)
			o.src = append(o.src, catb(l.src[i], rs[i].src[j]))
		}
		if !hit && kind == "LEFT" {
			o.rows = append(o.rows, cat(row, make([]Value, len(rcols))))
			o.src = append(o.src, l.src[i])
		}
	}
	return o, nil
}

func (q *ctxq) fromAll(fs []FromItem, up *scope) (*rel, error) {
	if len(fs) == 0 {
		return &rel{rows: [][]Value{{}}, src: [][]baseRow{nil}}, nil
	}
	l, err := q.from(fs[0], up)
	if err != nil {
		return nil, err
	}
	for _, f := range fs[1:] {
		l, err = q.join(l, &Join{Kind: "CROSS", R: f}, up)
		if err != nil {
			return nil, err
		}
	}
	return l, nil
}

func itemName(it SelItem) string {
	if it.Alias != "" {
		return it.Alias
	}
	switch x := it.E.(type) {
	case Col:
		return x.Name
	case *Func:
		return x.Name
	case *Cast:
		if c, ok := x.E.(Col); ok {
			return c.Name
		}
		if f, ok := x.E.(*Func); ok {
			return f.Name
		}
		return x.Typ
	case *Exists:
		return "exists"
	case *Case:
		return "case"
	case *SubQ:
		if len(x.S.Items) == 1 {
			return itemName(x.S.Items[0])
		}
	}
	return "?column?"
}

func (q *ctxq) sel(s *Select, up *scope) (*rel, error) {
	q, err := q.runWith(s.With, up)
	if err != nil {
		return nil, err
	}
	if s.SetOp != "" {
		return q.setop(s, up)
	}
	if s.Values != nil {
		o := &rel{}
		for i := range s.Values[0] {
			o.cols = append(o.cols, colref{"", "column" + itoa(i+1)})
		}
		for _, r := range s.Values {
			if len(r) != len(s.Values[0]) {
				return nil, pgErr("42601", "VALUES lists must all be the same length")
			}
			var row []Value
			for _, e := range r {
				if e == nil {
					row = append(row, defaultMark{})
					continue
				}
				v, err := q.eval(e, up)
				if err != nil {
					return nil, err
				}
				row = append(row, v)
			}
			o.rows = append(o.rows, row)
		}
		o.src = make([][]baseRow, len(o.rows))
		return q.orderLimit(s, o, nil, up)
	}
	in, err := q.fromAll(s.From, up)
	if err != nil {
		return nil, err
	}
	if s.Where != nil {
		f := &rel{cols: in.cols}
		for i, row := range in.rows {
			v, err := q.eval(s.Where, &scope{cols: in.cols, row: row, up: up})
			if err != nil {
				return nil, err
			}
			ok, err := truth(v)
			if err != nil {
				return nil, err
			}
			if ok {
				f.rows = append(f.rows, row)
				f.src = append(f.src, in.src[i])
			}
		}
		if len(in.rows) == 0 { // name errors surface even on empty inputs
			if _, err := q.eval(s.Where, &scope{cols: in.cols, row: make([]Value, len(in.cols)), up: up}); err != nil && isNameErr(err) {
				return nil, err
			}
		}
		in = f
	}
	agg := len(s.GroupBy) > 0 || s.Having != nil
	win := false
	for _, it := range s.Items {
		if _, ok := it.E.(Star); ok {
			continue
		}
		agg = agg || hasAgg(it.E)
		win = win || hasWin(it.E)
	}
	for _, o := range s.OrderBy {
		agg = agg || hasAgg(o.E)
	}
	o := &rel{}
	var scopes []*scope
	if agg {
		// group keys may name output columns or positions
		keys := make([]Expr, len(s.GroupBy))
		for i, g := range s.GroupBy {
			keys[i] = q.resolveOut(g, s.Items, in.cols)
		}
		type grp struct {
			vals []Value
			rows [][]Value
		}
		var gs []*grp
		idx := map[string]*grp{}
		for _, row := range in.rows {
			var vals []Value
			k := ""
			for _, g := range keys {
				v, err := q.eval(g, &scope{cols: in.cols, row: row, up: up})
				if err != nil {
					return nil, err
				}
				vals = append(vals, v)
				if v == nil {
					k += "\x00N"
				} else {
					k += "\x00V" + textOf(v)
				}
			}
			g := idx[k]
			if g == nil {
				g = &grp{vals: vals}
				idx[k] = g
				gs = append(gs, g)
			}
			g.rows = append(g.rows, row)
		}
		if len(keys) == 0 && len(gs) == 0 {
			gs = append(gs, &grp{})
		}
		for _, g := range gs {
			gc := &groupCtx{rows: g.rows, keys: keys, vals: g.vals, keySet: map[string]Value{}}
			for i, k := range keys {
				gc.keySet[exprKey(k)] = g.vals[i]
			}
			base := make([]Value, len(in.cols))
			if len(g.rows) > 0 {
				base = g.rows[0]
			}
			sc := &scope{cols: in.cols, row: base, up: up, group: gc}
			if s.Having != nil {
				v, err := q.eval(s.Having, sc)
				if err != nil {
					return nil, err
				}
				ok, err := truth(v)
				if err != nil {
					return nil, err
				}
				if !ok {
					continue
				}
			}
			scopes = append(scopes, sc)
			o.src = append(o.src, nil)
		}
	} else {
		for i, row := range in.rows {
			scopes = append(scopes, &scope{cols: in.cols, row: row, up: up})
			o.src = append(o.src, in.src[i])
		}
	}
	if win {
		if err := q.windows(s, scopes); err != nil {
			return nil, err
		}
	}
	// projection
	first := true
	project := func(sc *scope) ([]Value, error) {
		var row []Value
		for _, it := range s.Items {
			if st, ok := it.E.(Star); ok {
				n := 0
				for i, c := range in.cols {
					if st.Tbl == "" || st.Tbl == c.tbl {
						if first {
							o.cols = append(o.cols, colref{"", c.name})
						}
						row = append(row, sc.row[i])
						n++
					}
				}
				if n == 0 && st.Tbl != "" {
					return nil, pgErr("42P01", "missing FROM-clause entry for table %q", st.Tbl)
				}
				continue
			}
			if first {
				o.cols = append(o.cols, colref{"", itemName(it)})
			}
			v, err := q.eval(it.E, sc)
			if err != nil {
				return nil, err
			}
			row = append(row, v)
		}
		first = false
		return row, nil
	}
	if len(scopes) == 0 {
		sc := &scope{cols: in.cols, row: make([]Value, len(in.cols)), up: up}
		if agg {
			sc.group = &groupCtx{keySet: map[string]Value{}}
		}
		if win {
			sc.wins = map[*Func]Value{}
			for _, it := range s.Items {
				walk(it.E, func(e Expr) bool {
					if f, ok := e.(*Func); ok && f.Over != nil {
						sc.wins[f] = nil
					}
					return true
				})
			}
		}
		if _, err := project(sc); err != nil && (isNameErr(err) || isUnsup(err)) {
			return nil, err
		}
		o.src = nil
	}
	for _, sc := range scopes {
		row, err := project(sc)
		if err != nil {
			return nil, err
		}
		o.rows = append(o.rows, row)
	}
	if s.Distinct {
		seen := map[string]bool{}
		d := &rel{cols: o.cols}
		var ds []*scope
		if s.DistOn != nil {
			// sort first, then keep the first of each key
			so, sscopes, err := q.sortRel(s, o, scopes, up)
			if err != nil {
				return nil, err
			}
			for i, row := range so.rows {
				k := ""
				for _, e := range s.DistOn {
					v, err := q.eval(e, sscopes[i])
					if err != nil {
						return nil, err
					}
					k += "\x00" + keyText(v)
				}
				if !seen[k] {
					seen[k] = true
					d.rows = append(d.rows, row)
					d.src = append(d.src, so.src[i])
					ds = append(ds, sscopes[i])
				}
			}
			o, scopes = d, ds
		} else {
			for i, row := range o.rows {
				k := ""
				for _, v := range row {
					k += "\x00" + keyText(v)
				}
				if !seen[k] {
					seen[k] = true
					d.rows = append(d.rows, row)
					d.src = append(d.src, nil)
					ds = append(ds, scopes[i])
				}
			}
			o, scopes = d, ds
		}
	}
	return q.orderLimit(s, o, scopes, up)
}

func keyText(v Value) string {
	if v == nil {
		return "N"
	}
	return "V" + textOf(v)
}

func isNameErr(err error) bool {
	s := err.Error()
	return strings.Contains(s, "does not exist") || strings.Contains(s, "ambiguous") || strings.Contains(s, "missing FROM")
}
func isUnsup(err error) bool { _, ok := err.(*UnsupportedError); return ok }

func itoa(i int) string { return textOf(int64(i)) }

// resolveOut maps an ORDER BY / GROUP BY item naming an output column or
// position onto the select item's expression.
func (q *ctxq) resolveOut(e Expr, items []SelItem, cols []colref) Expr {
	switch x := e.(type) {
	case Lit:
		if n, ok := x.V.(int64); ok && n >= 1 && int(n) <= len(items) {
			return items[n-1].E
		}
	case Col:
		if x.Tbl == "" {
			for _, c := range cols {
				if c.name == x.Name {
					return e
				}
			}
			for _, it := range items {
				if it.Alias == x.Name {
					return it.E
				}
			}
		}
	}
	return e
}

func (q *ctxq) windows(s *Select, scopes []*scope) error {
	var fs []*Func
	for _, it := range s.Items {
		walk(it.E, func(e Expr) bool {
			if f, ok := e.(*Func); ok && f.Over != nil {
				fs = append(fs, f)
			}
			return true
		})
	}
	for _, sc := range scopes {
		sc.wins = map[*Func]Value{}
	}
	for _, f := range fs {
		parts := map[string][]*scope{}
		var order []string
		for _, sc := range scopes {
			k := ""
			for _, p := range f.Over.Part {
				v, err := q.eval(p, sc)
				if err != nil {
					return err
				}
				k += "\x00" + keyText(v)
			}
			if _, ok := parts[k]; !ok {
				order = append(order, k)
			}
			parts[k] = append(parts[k], sc)
		}
		for _, k := range order {
			ps := parts[k]
			keys := map[*scope][]Value{}
			for _, sc := range ps {
				for _, o := range f.Over.Order {
					v, err := q.eval(o.E, sc)
					if err != nil {
						return err
					}
					keys[sc] = append(keys[sc], v)
				}
			}
			sort.SliceStable(ps, func(i, j int) bool { return lessKeys(keys[ps[i]], keys[ps[j]], f.Over.Order) })
			switch f.Name {
			case "row_number":
				for i, sc := range ps {
					sc.wins[f] = int64(i + 1)
				}
			case "count", "sum", "min", "max", "avg":
				plain := &Func{Name: f.Name, Args: f.Args, Star: f.Star, Distinct: f.Distinct, Filter: f.Filter}
				var rows [][]Value
				for _, sc := range ps {
					rows = append(rows, sc.row)
				}
				for i, sc := range ps {
					use := rows
					if len(f.Over.Order) > 0 {
						j := i
						for j+1 < len(ps) && !lessKeys(keys[ps[i]], keys[ps[j+1]], f.Over.Order) {
							j++
						}
						use = rows[:j+1]
					}
					g := &scope{cols: sc.cols, row: sc.row, up: sc.up, group: &groupCtx{rows: use, keySet: map[string]Value{}}}
					v, err := q.agg(plain, g)
					if err != nil {
						return err
					}
					sc.wins[f] = v
				}
			default:
				return unsupported("window function %s", f.Name)
			}
		}
	}
	return nil
}

func (q *ctxq) sortRel(s *Select, o *rel, scopes []*scope, up *scope) (*rel, []*scope, error) {
	if len(s.OrderBy) == 0 {
		return o, scopes, nil
	}
	type sr struct {
		row []Value
		src []baseRow
		sc  *scope
		k   []Value
	}
	var rs []sr
	for i, row := range o.rows {
		r := sr{row: row}
		if o.src != nil {
			r.src = o.src[i]
		}
		if scopes != nil {
			r.sc = scopes[i]
		}
		for _, oi := range s.OrderBy {
			var v Value
			var err error
			done := false
			if l, ok := oi.E.(Lit); ok {
				if n, ok := l.V.(int64); ok {
					if n < 1 || int(n) > len(row) {
						return nil, nil, pgErr("42P10", "ORDER BY position %d is not in select list", n)
					}
					v, done = row[n-1], true
				}
			}
			if c, ok := oi.E.(Col); ok && c.Tbl == "" && !done {
				for j, oc := range o.cols {
					if oc.name == c.Name {
						v, done = row[j], true
						break
					}
				}
			}
			if !done {
				sc := r.sc
				if sc == nil {
					sc = &scope{cols: o.cols, row: row, up: up}
				}
				v, err = q.eval(oi.E, sc)
				if err != nil {
					return nil, nil, err
				}
			}
			r.k = append(r.k, v)
		}
		rs = append(rs, r)
	}
	sort.SliceStable(rs, func(i, j int) bool { return lessKeys(rs[i].k, rs[j].k, s.OrderBy) })
	n := &rel{cols: o.cols}
	var nsc []*scope
	for _, r := range rs {
		n.rows = append(n.rows, r.row)
		n.src = append(n.src, r.src)
		nsc = append(nsc, r.sc)
	}
	return n, nsc, nil
}

func (q *ctxq) orderLimit(s *Select, o *rel, scopes []*scope, up *scope) (*rel, error) {
	if s.DistOn == nil {
		var err error
		o, scopes, err = q.sortRel(s, o, scopes, up)
		if err != nil {
			return nil, err
		}
	}
	lim, off := int64(-1), int64(0)
	get := func(e Expr, d int64) (int64, error) {
		if e == nil {
			return d, nil
		}
		v, err := q.eval(e, up)
		if err != nil {
			return 0, err
		}
		v, err = cast(v, "bigint")
		if err != nil {
			return 0, err
		}
		if v == nil {
			return d, nil
		}
		if v.(int64) < 0 {
			return 0, pgErr("2201W", "LIMIT must not be negative")
		}
		return v.(int64), nil
	}
	var err error
	if lim, err = get(s.Limit, -1); err != nil {
		return nil, err
	}
	if off, err = get(s.Offset, 0); err != nil {
		return nil, err
	}
	out := &rel{cols: o.cols}
	for i := range o.rows {
		if s.Lock != nil && s.Lock.Strength == "update" || s.Lock != nil && s.Lock.Strength == "share" {
			// lock the base rows of a candidate before counting it
			skip := false
			if lim >= 0 && int64(len(out.rows)) >= lim {
				break
			}
			for _, b := range o.src[i] {
				if len(s.Lock.Of) > 0 {
					f := false
					for _, a := range s.Lock.Of {
						f = f || a == b.alias
					}
					if !f {
						continue
					}
				}
				if b.r.owner != nil && b.r.owner != q.tx {
					if s.Lock.SkipLocked {
						skip = true
						break
					}
					if s.Lock.NoWt {
						return nil, pgErr("55P03", "could not obtain lock on row in relation %q", b.t.Name)
					}
					return nil, retryErr{b.r.owner}
				}
			}
			if skip {
				continue
			}
			for _, b := range o.src[i] {
				q.tx.touch(b.t, b.r)
			}
		}
		if off > 0 {
			off--
			continue
		}
		if lim >= 0 && int64(len(out.rows)) >= lim {
			break
		}
		out.rows = append(out.rows, o.rows[i])
		if o.src != nil {
			out.src = append(out.src, o.src[i])
		} else {
			out.src = append(out.src, nil)
		}
	}
	return out, nil
}

func (q *ctxq) setop(s *Select, up *scope) (*rel, error) {
	l, err := q.sel(s.L, up)
	if err != nil {
		return nil, err
	}
	r, err := q.sel(s.R, up)
	if err != nil {
		return nil, err
	}
	if len(l.cols) != len(r.cols) {
		return nil, pgErr("42601", "each %s query must have the same number of columns", s.SetOp)
	}
	o := &rel{}
	for _, c := range l.cols {
		o.cols = append(o.cols, colref{"", c.name})
	}
	key := func(row []Value) string {
		k := ""
		for _, v := range row {
			k += "\x00" + keyText(v)
		}
		return k
	}
	switch s.SetOp {
	case "UNION":
		seen := map[string]bool{}
		for _, row := range append(append([][]Value{}, l.rows...), r.rows...) {
			if !s.SetAll {
				if k := key(row); seen[k] {
					continue
				} else {
					seen[k] = true
				}
			}
			o.rows = append(o.rows, row)
		}
	default:
		rc := map[string]int{}
		for _, row := range r.rows {
			rc[key(row)]++
		}
		seen := map[string]bool{}
		for _, row := range l.rows {
			k := key(row)
			if !s.SetAll && seen[k] {
				continue
			}
			in := rc[k] > 0
			if in && s.SetAll {
				rc[k]--
			}
			if in == (s.SetOp == "INTERSECT") {
				seen[k] = true
				o.rows = append(o.rows, row)
			}
		}
	}
	o.src = make([][]baseRow, len(o.rows))
	return q.orderLimit(s, o, nil, up)
}

type defaultMark struct{}

// exec runs any statement; affected is the row count of DML.
func (q *ctxq) exec(st interface{}, up *scope) (*rel, int64, error) {
	switch x := st.(type) {
	case *Select:
		r, err := q.sel(x, up)
		if err != nil {
			return nil, 0, err
		}
		return r, int64(len(r.rows)), nil
	case *Insert:
		return q.insert(x, up)
	case *Update:
		return q.update(x, up)
	case *Delete:
		return q.del(x, up)
	}
	return nil, 0, unsupported("statement %T", st)
}

func (q *ctxq) returning(items []SelItem, t *Table, alias string, rows [][]Value, extra []colref, ext [][]Value, up *scope) (*rel, error) {
	o := &rel{}
	if items == nil {
		return o, nil
	}
	cols := []colref{}
	for _, c := range t.Cols {
		cols = append(cols, colref{alias, c.Name})
	}
	n := len(cols)
	cols = append(cols, extra...)
	eval := func(row []Value, add bool) error {
		var out []Value
		first := o.cols == nil
		var oc []colref
		for _, it := range items {
			if st, ok := it.E.(Star); ok {
				for i, c := range cols {
					if st.Tbl == "" && i < n || st.Tbl == c.tbl {
						oc = append(oc, colref{"", c.name})
						out = append(out, row[i])
					}
				}
				continue
			}
			oc = append(oc, colref{"", itemName(it)})
			v, err := q.eval(it.E, &scope{cols: cols, row: row, up: up})
			if err != nil {
				return err
			}
			out = append(out, v)
		}
		if first {
			o.cols = oc
		}
		if add {
			o.rows = append(o.rows, out)
		}
		return nil
	}
	if len(rows) == 0 {
		if err := eval(make([]Value, len(cols)), false); err != nil && isNameErr(err) {
			return nil, err
		}
	}
	for i, r := range rows {
		full := r
		if ext != nil {
			full = cat(r, ext[i])
		}
		if err := eval(full, true); err != nil {
			return nil, err
		}
	}
	o.src = make([][]baseRow, len(o.rows))
	return o, nil
}

func (q *ctxq) store(t *Table, ci int, v Value) (Value, error) {
	if v == nil {
		return nil, nil
	}
	c := t.Cols[ci]
	// assignment casts: text may not be assigned to non-text columns implicitly
	if _, ok := v.(string); ok && c.Type != "text" && c.Type != "char" {
		return nil, pgErr("42804", "column %q is of type %s but expression is of type text", c.Name, c.Type)
	}
	switch v.(type) {
	case bool:
		if c.Type != "bool" && c.Type != "text" {
			return nil, pgErr("42804", "column %q is of type %s but expression is of type boolean", c.Name, c.Type)
		}
	case int64, Num, float64:
		if c.Type == "bool" || c.Type == "jsonb" || strings.HasPrefix(c.Type, "timestamp") {
			return nil, pgErr("42804", "column %q is of type %s but expression is of type %s", c.Name, c.Type, typeName(v))
		}
	}
	return cast(v, c.Type)
}

func (q *ctxq) insert(x *Insert, up *scope) (*rel, int64, error) {
	q, err := q.runWith(x.With, up)
	if err != nil {
		return nil, 0, err
	}
	t, err := q.table(x.Table)
	if err != nil {
		return nil, 0, err
	}
	cols := x.Cols
	if cols == nil {
		for _, c := range t.Cols {
			cols = append(cols, c.Name)
		}
	}
	var ci []int
	for _, c := range cols {
		i := t.col(c)
		if i < 0 {
			return nil, 0, pgErr("42703", "column %q of relation %q does not exist", c, t.Name)
		}
		ci = append(ci, i)
	}
	var rows [][]Value
	if x.Default {
		rows = [][]Value{{}}
	} else {
		r, err := q.sel(x.Sel, up)
		if err != nil {
			return nil, 0, err
		}
		rows = r.rows
		if len(rows) > 0 && len(rows[0]) > len(ci) {
			return nil, 0, pgErr("42601", "INSERT has more expressions than target columns")
		}
		if len(rows) > 0 && len(rows[0]) < len(ci) && x.Cols != nil {
			return nil, 0, pgErr("42601", "INSERT has more target columns than expressions")
		}
	}
	var out [][]Value
	alias := x.Alias
	if alias == "" {
		alias = t.Name
	}
	for _, src := range rows {
		row := t.defaults(q.tx)
		for i, v := range src {
			if _, ok := v.(defaultMark); ok {
				continue
			}
			sv, err := q.store(t, ci[i], v)
			if err != nil {
				return nil, 0, err
			}
			row[ci[i]] = sv
		}
		if x.Conflict != nil {
			if err := q.db.checkRow(q.tx, t, row); err != nil {
				return nil, 0, err
			}
			u, r, err := q.db.uniqueConflict(q.tx, t, nil, row)
			if err != nil {
				return nil, 0, err
			}
			if u != nil {
				match := x.Conflict.Cols == nil && x.Conflict.Constraint == ""
				if x.Conflict.Constraint == u.Name {
					match = true
				}
				if len(x.Conflict.Cols) == len(u.Cols) && len(u.Cols) > 0 {
					match = true
					for _, c := range x.Conflict.Cols {
						f := false
						for _, k := range u.Cols {
							f = f || t.Cols[k].Name == c
						}
						match = match && f
					}
				}
				if !match {
					return nil, 0, uniqueErr(t, u, row)
				}
				if x.Conflict.Nothing {
					continue
				}
				if r.owner != nil && r.owner != q.tx {
					return nil, 0, retryErr{r.owner}
				}
				cur := q.tx.vis(t, r)
				// unqualified names mean the target row
				top := &scope{up: &scope{up: up}}
				for i, c := range t.Cols {
					top.cols = append(top.cols, colref{alias, c.Name})
					top.row = append(top.row, cur[i])
					top.up.cols = append(top.up.cols, colref{"excluded", c.Name})
					top.up.row = append(top.up.row, row[i])
				}
				if x.Conflict.Where != nil {
					v, err := q.eval(x.Conflict.Where, top)
					if err != nil {
						return nil, 0, err
					}
					if ok, err := truth(v); err != nil || !ok {
						if err != nil {
							return nil, 0, err
						}
						continue
					}
				}
				nw, err := q.applySets(t, x.Conflict.Sets, cur, top)
				if err != nil {
					return nil, 0, err
				}
				nw, err = q.db.updateRow(q.tx, t, r, nw)
				if err != nil {
					return nil, 0, err
				}
				out = append(out, nw)
				continue
			}
		}
		_, err := q.db.insertRow(q.tx, t, row)
		if err != nil {
			return nil, 0, err
		}
		out = append(out, row)
	}
	r, err := q.returning(x.Returning, t, alias, out, nil, nil, up)
	return r, int64(len(out)), err
}

func (q *ctxq) applySets(t *Table, sets []SetClause, cur []Value, sc *scope) ([]Value, error) {
	nw := append([]Value(nil), cur...)
	for _, s := range sets {
		cols := s.Cols
		if s.Col != "" {
			cols = []string{s.Col}
		}
		v, err := q.eval(s.E, sc)
		if err != nil {
			return nil, err
		}
		vals := []Value{v}
		if s.Cols != nil {
			if rc, ok := v.(Rec); ok {
				vals = rc
			}
		}
		if len(vals) != len(cols) {
			return nil, pgErr("42601", "number of columns does not match number of values")
		}
		for i, c := range cols {
			k := t.col(c)
			if k < 0 {
				return nil, pgErr("42703", "column %q of relation %q does not exist", c, t.Name)
			}
			sv, err := q.store(t, k, vals[i])
			if err != nil {
				return nil, err
			}
			nw[k] = sv
		}
	}
	return nw, nil
}

func (q *ctxq) target(t *Table, alias string, from []FromItem, where Expr, up *scope) ([]*Row, *rel, [][]Value, error) {
	tr, err := q.scan(t.Name, alias)
	if err != nil {
		return nil, nil, nil, err
	}
	var ext *rel
	if len(from) > 0 {
		ext, err = q.fromAll(from, up)
		if err != nil {
			return nil, nil, nil, err
		}
	}
	cols := tr.cols
	if ext != nil {
		cols = append(append([]colref{}, tr.cols...), ext.cols...)
	}
	var rows []*Row
	var exts [][]Value
	for i, row := range tr.rows {
		cand := [][]Value{nil}
		if ext != nil {
			cand = ext.rows
		}
		for _, e := range cand {
			full := row
			if ext != nil {
				full = cat(row, e)
			}
			if where != nil {
				v, err := q.eval(where, &scope{cols: cols, row: full, up: up})
				if err != nil {
					return nil, nil, nil, err
				}
				ok, err := truth(v)
				if err != nil {
					return nil, nil, nil, err
				}
				if !ok {
					continue
				}
			}
			rows = append(rows, tr.src[i][0].r)
			exts = append(exts, e)
			break
		}
	}
	if len(tr.rows) == 0 && where != nil {
		n := make([]Value, len(cols))
		if _, err := q.eval(where, &scope{cols: cols, row: n, up: up}); err != nil && (isNameErr(err) || isUnsup(err)) {
			return nil, nil, nil, err
		}
	}
	for _, r := range rows {
		if r.owner != nil && r.owner != q.tx {
			return nil, nil, nil, retryErr{r.owner}
		}
		if q.tx.isoRR && r.seq > q.tx.snapSeq {
			return nil, nil, nil, pgErr("40001", "could not serialize access due to concurrent update")
		}
	}
	return rows, ext, exts, nil
}

func (q *ctxq) update(x *Update, up *scope) (*rel, int64, error) {
	q, err := q.runWith(x.With, up)
	if err != nil {
		return nil, 0, err
	}
	t, err := q.table(x.Table)
	if err != nil {
		return nil, 0, err
	}
	alias := x.Alias
	if alias == "" {
		alias = t.Name
	}
	rows, ext, exts, err := q.target(t, alias, x.From, x.Where, up)
	if err != nil {
		return nil, 0, err
	}
	for _, r := range rows {
		q.tx.touch(t, r)
	}
	cols := []colref{}
	for _, c := range t.Cols {
		cols = append(cols, colref{alias, c.Name})
	}
	var ec []colref
	if ext != nil {
		ec = ext.cols
	}
	all := append(append([]colref{}, cols...), ec...)
	var out, outx [][]Value
	for i, r := range rows {
		cur := q.tx.vis(t, r)
		full := cur
		if ext != nil {
			full = cat(cur, exts[i])
		}
		nw, err := q.applySets(t, x.Sets, cur, &scope{cols: all, row: full, up: up})
		if err != nil {
			return nil, 0, err
		}
		nw, err = q.db.updateRow(q.tx, t, r, nw)
		if err != nil {
			return nil, 0, err
		}
		out = append(out, nw)
		outx = append(outx, exts[i])
	}
	if ext == nil {
		outx = nil
	}
	rel, err := q.returning(x.Returning, t, alias, out, ec, outx, up)
	return rel, int64(len(out)), err
}

func (q *ctxq) del(x *Delete, up *scope) (*rel, int64, error) {
	q, err := q.runWith(x.With, up)
	if err != nil {
		return nil, 0, err
	}
	t, err := q.table(x.Table)
	if err != nil {
		return nil, 0, err
	}
	alias := x.Alias
	if alias == "" {
		alias = t.Name
	}
	rows, _, _, err := q.target(t, alias, x.Using, x.Where, up)
	if err != nil {
		return nil, 0, err
	}
	var out [][]Value
	for _, r := range rows {
		out = append(out, q.tx.vis(t, r))
		if err := q.db.deleteRow(q.tx, t, r); err != nil {
			return nil, 0, err
		}
	}
	rel, err := q.returning(x.Returning, t, alias, out, nil, nil, up)
	return rel, int64(len(out)), err
}
