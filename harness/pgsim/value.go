// Package pgsim is an in-process stand-in for the PostgreSQL server blnk talks
// to.  It executes the SQL text the real code sends (parser + executor over an
// in-memory store) with READ COMMITTED / REPEATABLE READ semantics, row locks,
// unique/FK/check constraints and lib/pq's error and value conventions, and it
// exposes a gate before every statement so that a harness can order, fail or
// crash the code under test at any statement boundary.
package pgsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lib/pq"
)

// Value is one of nil, int64, float64, bool, string (text), Unknown, Num, TS,
// JSON, Arr, Interval, Rec.
type Value = interface{}

type Unknown string

type Num struct {
	I *big.Int
	S int
}

type TS struct {
	T    time.Time
	TZ   bool
	Date bool
}

type JSON struct{ V interface{} }
type Arr []Value
type Interval time.Duration
type Rec []Value

func pgErr(code, format string, a ...interface{}) *pq.Error {
	return &pq.Error{Severity: "ERROR", Code: pq.ErrorCode(code), Message: fmt.Sprintf(format, a...)}
}

// UnsupportedError marks SQL the simulator does not implement.
type UnsupportedError struct{ Msg string }

func (u *UnsupportedError) Error() string { return "pgsim: unsupported SQL: " + u.Msg }

func unsupported(format string, a ...interface{}) error {
	return &UnsupportedError{fmt.Sprintf(format, a...)}
}

func NumFromInt(i int64) Num { return Num{big.NewInt(i), 0} }

func parseNum(s string) (Num, error) {
	orig := s
	s = strings.TrimSpace(s)
	exp := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e, err := strconv.Atoi(s[i+1:])
		if err != nil {
			return Num{}, pgErr("22P02", "invalid input syntax for type numeric: %q", orig)
		}
		exp = e
		s = s[:i]
	}
	neg := false
	if strings.HasPrefix(s, "-") {
		neg = true
		s = s[1:]
	} else if strings.HasPrefix(s, "+") {
		s = s[1:]
	}
	scale := 0
	if i := strings.IndexByte(s, '.'); i >= 0 {
		scale = len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	if s == "" {
		return Num{}, pgErr("22P02", "invalid input syntax for type numeric: %q", orig)
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return Num{}, pgErr("22P02", "invalid input syntax for type numeric: %q", orig)
		}
	}
	v, _ := new(big.Int).SetString(s, 10)
	scale -= exp
	if scale < 0 {
		v.Mul(v, pow10(-scale))
		scale = 0
	}
	if neg {
		v.Neg(v)
	}
	return Num{v, scale}, nil
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func (n Num) String() string {
	s := new(big.Int).Abs(n.I).String()
	if n.S > 0 {
		for len(s) <= n.S {
			s = "0" + s
		}
		s = s[:len(s)-n.S] + "." + s[len(s)-n.S:]
	}
	if n.I.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func align(a, b Num) (*big.Int, *big.Int, int) {
	if a.S == b.S {
		return a.I, b.I, a.S
	}
	if a.S < b.S {
		return new(big.Int).Mul(a.I, pow10(b.S-a.S)), b.I, b.S
	}
	return a.I, new(big.Int).Mul(b.I, pow10(a.S-b.S)), a.S
}

func (n Num) Cmp(m Num) int { a, b, _ := align(n, m); return a.Cmp(b) }

// round to scale s, half away from zero
func (n Num) round(s int) Num {
	if n.S <= s {
		return Num{new(big.Int).Mul(n.I, pow10(s-n.S)), s}
	}
	d := pow10(n.S - s)
	q, r := new(big.Int).QuoRem(n.I, d, new(big.Int))
	r.Abs(r).Mul(r, big.NewInt(2))
	if r.Cmp(d) >= 0 {
		q.Add(q, big.NewInt(int64(n.I.Sign())))
	}
	return Num{q, s}
}

func (n Num) Int() *big.Int { return n.round(0).I }

func isUnknown(v Value) bool { _, ok := v.(Unknown); return ok }

// textOf renders v the way PostgreSQL's ::text does.
func textOf(v Value) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case Unknown:
		return string(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case bool:
		if x {
			return "true"
		}
		return "false"
	case Num:
		return x.String()
	case TS:
		if x.Date {
			return x.T.Format("2006-01-02")
		}
		s := x.T.Format("2006-01-02 15:04:05.999999")
		if x.TZ {
			s = x.T.UTC().Format("2006-01-02 15:04:05.999999") + "+00"
		}
		return s
	case JSON:
		return jsonText(x.V)
	case Arr:
		var b strings.Builder
		b.WriteByte('{')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			if e == nil {
				b.WriteString("NULL")
				continue
			}
			s := textOf(e)
			if s == "" || strings.ContainsAny(s, `{},"\ `) || strings.EqualFold(s, "null") {
				b.WriteByte('"')
				b.WriteString(strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`))
				b.WriteByte('"')
			} else {
				b.WriteString(s)
			}
		}
		b.WriteByte('}')
		return b.String()
	case Interval:
		return time.Duration(x).String()
	}
	return fmt.Sprint(v)
}

func jsonText(v interface{}) string {
	var b bytes.Buffer
	writeJSON(&b, v)
	return b.String()
}

func writeJSON(b *bytes.Buffer, v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			if len(ks[i]) != len(ks[j]) {
				return len(ks[i]) < len(ks[j])
			}
			return ks[i] < ks[j]
		})
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSON(b, k)
			b.WriteString(": ")
			writeJSON(b, x[k])
		}
		b.WriteByte('}')
	case []interface{}:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSON(b, e)
		}
		b.WriteByte(']')
	case json.Number:
		// jsonb stores numerics: normalise exponents away
		if n, err := parseNum(x.String()); err == nil {
			b.WriteString(n.String())
		} else {
			b.WriteString(x.String())
		}
	default:
		e := json.NewEncoder(b)
		e.SetEscapeHTML(false)
		_ = e.Encode(x)
		b.Truncate(b.Len() - 1)
	}
}

func parseJSON(s string) (JSON, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return JSON{}, pgErr("22P02", "invalid input syntax for type json")
	}
	if d.More() {
		return JSON{}, pgErr("22P02", "invalid input syntax for type json")
	}
	if strings.Contains(s, `\u0000`) {
		return JSON{}, pgErr("22P05", "unsupported Unicode escape sequence")
	}
	return JSON{v}, nil
}

var tsLayouts = []string{
	"2006-01-02 15:04:05.999999999Z07:00:00", "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999Z07",
	"2006-01-02T15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999",
	"2006-01-02 15:04", "2006-01-02T15:04", "2006-01-02",
}

func parseTS(s string, tz bool) (TS, error) {
	s = strings.TrimSpace(s)
	for _, l := range tsLayouts {
		t, err := time.Parse(l, s)
		if err != nil {
			continue
		}
		t = t.Round(time.Microsecond)
		if tz {
			return TS{T: t.UTC(), TZ: true}, nil
		}
		// timestamp without time zone: the wall clock fields are kept
		return TS{T: time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC)}, nil
	}
	return TS{}, pgErr("22007", "invalid input syntax for type timestamp: %q", s)
}

func parseArr(s string) (Arr, error) {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, pgErr("22P02", "malformed array literal: %q", s)
	}
	s = s[1 : len(s)-1]
	out := Arr{}
	i := 0
	for i < len(s) {
		if s[i] == '"' {
			var b strings.Builder
			i++
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' {
					i++
				}
				b.WriteByte(s[i])
				i++
			}
			i++
			out = append(out, b.String())
		} else {
			j := strings.IndexByte(s[i:], ',')
			e := ""
			if j < 0 {
				e = s[i:]
				i = len(s)
			} else {
				e = s[i : i+j]
				i += j
			}
			if strings.EqualFold(e, "null") {
				out = append(out, nil)
			} else {
				out = append(out, Unknown(e))
			}
		}
		if i < len(s) && s[i] == ',' {
			i++
		}
	}
	return out, nil
}

func parseInterval(s string) (Interval, error) {
	f := strings.Fields(s)
	var tot time.Duration
	if len(f) == 1 {
		if d, err := time.ParseDuration(f[0]); err == nil {
			return Interval(d), nil
		}
		if p := strings.Split(f[0], ":"); len(p) == 3 {
			h, e1 := strconv.Atoi(p[0])
			m, e2 := strconv.Atoi(p[1])
			sec, e3 := strconv.ParseFloat(p[2], 64)
			if e1 == nil && e2 == nil && e3 == nil {
				return Interval(time.Duration(h)*time.Hour + time.Duration(m)*time.Minute + time.Duration(sec*float64(time.Second))), nil
			}
		}
		if sec, err := strconv.ParseFloat(f[0], 64); err == nil {
			return Interval(sec * float64(time.Second)), nil
		}
		return 0, pgErr("22007", "invalid input syntax for type interval: %q", s)
	}
	for i := 0; i+1 < len(f); i += 2 {
		n, err := strconv.ParseFloat(f[i], 64)
		if err != nil {
			return 0, pgErr("22007", "invalid input syntax for type interval: %q", s)
		}
		u := strings.TrimSuffix(strings.ToLower(f[i+1]), "s")
		var d time.Duration
		switch u {
		case "second", "sec":
			d = time.Second
		case "millisecond", "msec":
			d = time.Millisecond
		case "microsecond":
			d = time.Microsecond
		case "minute", "min":
			d = time.Minute
		case "hour":
			d = time.Hour
		case "day":
			d = 24 * time.Hour
		case "week":
			d = 7 * 24 * time.Hour
		default:
			return 0, pgErr("22007", "invalid input syntax for type interval: %q", s)
		}
		tot += time.Duration(n * float64(d))
	}
	return Interval(tot), nil
}

// cast converts v to the named SQL type. assign selects assignment rules
// (column storage); both raise PostgreSQL's errors on bad input.
func cast(v Value, typ string) (Value, error) {
	if v == nil {
		return nil, nil
	}
	typ = strings.ToLower(typ)
	switch typ {
	case "text", "varchar", "char", "character varying", "bpchar", "name", "citext":
		switch x := v.(type) {
		case string:
			return x, nil
		default:
			return textOf(v), nil
		}
	case "int", "int4", "integer", "smallint", "int2", "bigint", "int8", "serial", "bigserial":
		var n *big.Int
		switch x := v.(type) {
		case int64:
			n = big.NewInt(x)
		case Num:
			n = x.Int()
		case float64:
			m, err := parseNum(strconv.FormatFloat(x, 'f', -1, 64))
			if err != nil {
				return nil, err
			}
			n = m.Int()
		case bool:
			if x {
				return int64(1), nil
			}
			return int64(0), nil
		case string, Unknown:
			s := strings.TrimSpace(textOf(x))
			z, ok := new(big.Int).SetString(s, 10)
			if !ok {
				return nil, pgErr("22P02", "invalid input syntax for type %s: %q", typ, s)
			}
			n = z
		case JSON:
			m, err := parseNum(jsonText(x.V))
			if err != nil {
				return nil, err
			}
			n = m.Int()
		default:
			return nil, pgErr("42846", "cannot cast to %s", typ)
		}
		lim := 63
		if strings.HasPrefix(typ, "int4") || typ == "int" || typ == "integer" || typ == "serial" {
			lim = 31
		}
		if typ == "smallint" || typ == "int2" {
			lim = 15
		}
		if n.BitLen() > lim {
			return nil, pgErr("22003", "value %q is out of range for type %s", n.String(), typ)
		}
		return n.Int64(), nil
	case "numeric", "decimal":
		switch x := v.(type) {
		case int64:
			return NumFromInt(x), nil
		case Num:
			return x, nil
		case float64:
			return parseNum(strconv.FormatFloat(x, 'g', 15, 64))
		case string, Unknown:
			return parseNum(textOf(x))
		case JSON:
			return parseNum(jsonText(x.V))
		}
		return nil, pgErr("42846", "cannot cast to numeric")
	case "float", "float8", "double precision", "real", "float4":
		switch x := v.(type) {
		case int64:
			return float64(x), nil
		case float64:
			return x, nil
		default:
			f, err := strconv.ParseFloat(strings.TrimSpace(textOf(x)), 64)
			if err != nil {
				return nil, pgErr("22P02", "invalid input syntax for type double precision: %q", textOf(x))
			}
			return f, nil
		}
	case "bool", "boolean":
		switch x := v.(type) {
		case bool:
			return x, nil
		case int64:
			return x != 0, nil
		case JSON:
			if b, ok := x.V.(bool); ok {
				return b, nil
			}
			return nil, pgErr("22023", "cannot cast jsonb to type boolean")
		default:
			switch strings.ToLower(strings.TrimSpace(textOf(x))) {
			case "t", "true", "yes", "on", "1", "y":
				return true, nil
			case "f", "false", "no", "off", "0", "n":
				return false, nil
			}
			return nil, pgErr("22P02", "invalid input syntax for type boolean: %q", textOf(x))
		}
	case "timestamp", "timestamp without time zone", "timestamptz", "timestamp with time zone", "date":
		tz := typ == "timestamptz" || typ == "timestamp with time zone"
		switch x := v.(type) {
		case TS:
			r := TS{T: x.T, TZ: tz}
			if typ == "date" {
				r = TS{T: time.Date(x.T.Year(), x.T.Month(), x.T.Day(), 0, 0, 0, 0, time.UTC), Date: true}
			}
			return r, nil
		case string, Unknown:
			t, err := parseTS(textOf(x), tz)
			if err != nil {
				return nil, err
			}
			if typ == "date" {
				return TS{T: time.Date(t.T.Year(), t.T.Month(), t.T.Day(), 0, 0, 0, 0, time.UTC), Date: true}, nil
			}
			return t, nil
		}
		return nil, pgErr("42846", "cannot cast to %s", typ)
	case "jsonb", "json":
		switch x := v.(type) {
		case JSON:
			return x, nil
		case string, Unknown:
			return wrapJ(parseJSON(textOf(x)))
		}
		return nil, pgErr("42846", "cannot cast to jsonb")
	case "interval":
		switch x := v.(type) {
		case Interval:
			return x, nil
		case string, Unknown:
			return wrapI(parseInterval(textOf(x)))
		}
		return nil, pgErr("42846", "cannot cast to interval")
	}
	if strings.HasSuffix(typ, "[]") {
		el := strings.TrimSuffix(typ, "[]")
		var a Arr
		switch x := v.(type) {
		case Arr:
			a = x
		default:
			var err error
			a, err = parseArr(textOf(x))
			if err != nil {
				return nil, err
			}
		}
		out := make(Arr, len(a))
		for i, e := range a {
			c, err := cast(e, el)
			if err != nil {
				return nil, err
			}
			out[i] = c
		}
		return out, nil
	}
	return nil, unsupported("type %q", typ)
}

func wrapJ(j JSON, e error) (Value, error) {
	if e != nil {
		return nil, e
	}
	return j, nil
}
func wrapI(j Interval, e error) (Value, error) {
	if e != nil {
		return nil, e
	}
	return j, nil
}

func typeName(v Value) string {
	switch x := v.(type) {
	case nil, Unknown:
		return "unknown"
	case string:
		return "text"
	case int64:
		return "bigint"
	case float64:
		return "double precision"
	case bool:
		return "boolean"
	case Num:
		return "numeric"
	case TS:
		if x.Date {
			return "date"
		}
		if x.TZ {
			return "timestamptz"
		}
		return "timestamp"
	case JSON:
		return "jsonb"
	case Interval:
		return "interval"
	case Arr:
		for _, e := range x {
			if e != nil {
				return typeName(e) + "[]"
			}
		}
		return "text[]"
	}
	return fmt.Sprintf("%T", v)
}

func isNumeric(v Value) bool {
	switch v.(type) {
	case int64, float64, Num:
		return true
	}
	return false
}

func toNum(v Value) Num {
	switch x := v.(type) {
	case int64:
		return NumFromInt(x)
	case Num:
		return x
	case float64:
		n, err := parseNum(strconv.FormatFloat(x, 'f', -1, 64))
		if err != nil {
			return NumFromInt(0)
		}
		return n
	}
	return NumFromInt(0)
}

// harmonize resolves an Unknown side against the other side's type.
func harmonize(a, b Value) (Value, Value, error) {
	ua, ub := isUnknown(a), isUnknown(b)
	if ua && ub {
		return textOf(a), textOf(b), nil
	}
	if ua && b != nil {
		t := typeName(b)
		if t == "bigint" { // a literal compared with an int column
			if n, e := parseNum(textOf(a)); e == nil && n.S > 0 {
				return nil, nil, pgErr("22P02", "invalid input syntax for type bigint: %q", textOf(a))
			}
		}
		c, err := cast(a, t)
		return c, b, err
	}
	if ub && a != nil {
		b2, a2, err := harmonize(b, a)
		return a2, b2, err
	}
	return a, b, nil
}

// compare returns -1,0,1; both non-nil.
func compare(a, b Value) (int, error) {
	a, b, err := harmonize(a, b)
	if err != nil {
		return 0, err
	}
	if isNumeric(a) && isNumeric(b) {
		_, fa := a.(float64)
		_, fb := b.(float64)
		if fa || fb {
			x, _ := strconv.ParseFloat(textOf(a), 64)
			y, _ := strconv.ParseFloat(textOf(b), 64)
			switch {
			case x < y:
				return -1, nil
			case x > y:
				return 1, nil
			}
			return 0, nil
		}
		return toNum(a).Cmp(toNum(b)), nil
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), nil
		}
	case bool:
		if y, ok := b.(bool); ok {
			switch {
			case x == y:
				return 0, nil
			case !x:
				return -1, nil
			}
			return 1, nil
		}
	case TS:
		if y, ok := b.(TS); ok {
			return x.T.Compare(y.T), nil
		}
	case Interval:
		if y, ok := b.(Interval); ok {
			switch {
			case x < y:
				return -1, nil
			case x > y:
				return 1, nil
			}
			return 0, nil
		}
	case JSON:
		if y, ok := b.(JSON); ok {
			return strings.Compare(jsonText(x.V), jsonText(y.V)), nil
		}
	case Arr:
		if y, ok := b.(Arr); ok {
			for i := range x {
				if i >= len(y) {
					return 1, nil
				}
				c, err := compare(x[i], y[i])
				if err != nil || c != 0 {
					return c, err
				}
			}
			if len(x) < len(y) {
				return -1, nil
			}
			return 0, nil
		}
	case Rec:
		if y, ok := b.(Rec); ok && len(x) == len(y) {
			for i := range x {
				c, err := compare(x[i], y[i])
				if err != nil || c != 0 {
					return c, err
				}
			}
			return 0, nil
		}
	}
	return 0, pgErr("42883", "operator does not exist: %s = %s", typeName(a), typeName(b))
}

// distinct reports IS DISTINCT FROM.
func distinct(a, b Value) bool {
	if a == nil || b == nil {
		return !(a == nil && b == nil)
	}
	c, err := compare(a, b)
	return err != nil || c != 0
}

func jsonContains(a, b interface{}) bool {
	switch y := b.(type) {
	case map[string]interface{}:
		x, ok := a.(map[string]interface{})
		if !ok {
			return false
		}
		for k, v := range y {
			xv, ok := x[k]
			if !ok || !jsonContains(xv, v) {
				return false
			}
		}
		return true
	case []interface{}:
		x, ok := a.([]interface{})
		if !ok {
			return false
		}
		for _, v := range y {
			f := false
			for _, u := range x {
				if jsonContains(u, v) {
					f = true
					break
				}
			}
			if !f {
				return false
			}
		}
		return true
	default:
		if x, ok := a.([]interface{}); ok {
			for _, u := range x {
				if jsonText(u) == jsonText(b) {
					return true
				}
			}
			return false
		}
		return jsonText(a) == jsonText(b)
	}
}
