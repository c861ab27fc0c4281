package simdb

import (
	"sort"
	"strconv"
	"strings"
)

// Error is a MySQL server error.
type Error struct {
	Code  uint16
	State string
	Msg   string
}

func (e *Error) Error() string { return "Error " + strconv.Itoa(int(e.Code)) + ": " + e.Msg }

func errf(code uint16, msg string) error { return &Error{code, "HY000", msg} }

type row struct {
	id   int64
	part int
	v    []Val
}

type table struct {
	name   string
	temp   bool
	cols   []colDef
	idx    map[string]int // lower-case column name
	pk     []int
	uniq   [][]int // includes pk first when present
	uix    []map[string]*row
	rows   map[int64]*row
	nextID int64
	autoN  int64
	partBy expr
	partN  int

	sorted []*row
	dirty  bool
}

func newTable(c *createTable) (*table, error) {
	t := &table{name: c.name, temp: c.temp, cols: c.cols, idx: map[string]int{}, rows: map[int64]*row{}, partBy: c.partBy, partN: c.partCount}
	for i, d := range c.cols {
		t.idx[strings.ToLower(d.name)] = i
	}
	list := func(names []string) ([]int, error) {
		var out []int
		for _, n := range names {
			i, ok := t.idx[strings.ToLower(n)]
			if !ok {
				return nil, errf(1072, "Key column '"+n+"' doesn't exist in table")
			}
			out = append(out, i)
		}
		return out, nil
	}
	if c.pk != nil {
		pk, err := list(c.pk)
		if err != nil {
			return nil, err
		}
		t.pk = pk
		t.uniq = append(t.uniq, pk)
	}
	for _, u := range c.uniq {
		x, err := list(u)
		if err != nil {
			return nil, err
		}
		t.uniq = append(t.uniq, x)
	}
	for range t.uniq {
		t.uix = append(t.uix, map[string]*row{})
	}
	return t, nil
}

func keyOf(v []Val, cols []int) (string, bool) {
	var b strings.Builder
	for _, c := range cols {
		if v[c] == nil {
			return "", false
		}
		s := toStr(v[c])
		b.WriteString(strconv.Itoa(len(s)))
		b.WriteByte(':')
		b.WriteString(s)
	}
	return b.String(), true
}

// conflicts returns the stored rows that collide with v on a unique key.
func (t *table) conflicts(v []Val) []*row {
	var out []*row
	for i, u := range t.uniq {
		if k, ok := keyOf(v, u); ok {
			if r := t.uix[i][k]; r != nil {
				dup := false
				for _, o := range out {
					dup = dup || o == r
				}
				if !dup {
					out = append(out, r)
				}
			}
		}
	}
	return out
}

func (t *table) add(r *row) {
	t.rows[r.id] = r
	for i, u := range t.uniq {
		if k, ok := keyOf(r.v, u); ok {
			t.uix[i][k] = r
		}
	}
	t.dirty = true
}

func (t *table) del(r *row) {
	delete(t.rows, r.id)
	for i, u := range t.uniq {
		if k, ok := keyOf(r.v, u); ok && t.uix[i][k] == r {
			delete(t.uix[i], k)
		}
	}
	t.dirty = true
}

// scan returns the rows in storage order: partition by partition, clustered by primary key.
func (t *table) scan() []*row {
	if t.dirty || t.sorted == nil {
		s := make([]*row, 0, len(t.rows))
		for _, r := range t.rows {
			s = append(s, r)
		}
		sort.Slice(s, func(i, j int) bool {
			a, b := s[i], s[j]
			if a.part != b.part {
				return a.part < b.part
			}
			for _, c := range t.pk {
				if d := cmpVal(a.v[c], b.v[c]); d != 0 {
					return d < 0
				}
			}
			return a.id < b.id
		})
		t.sorted, t.dirty = s, false
	}
	return t.sorted
}

func (t *table) clear() {
	t.rows = map[int64]*row{}
	for i := range t.uix {
		t.uix[i] = map[string]*row{}
	}
	t.sorted = nil
	t.dirty = true
	t.autoN = 0
}

// ---- values

func toStr(v Val) string {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	panic("bad value")
}

func toNum(v Val) float64 {
	switch v := v.(type) {
	case int64:
		return float64(v)
	case float64:
		return v
	case string:
		s := strings.TrimSpace(v)
		for n := len(s); n > 0; n-- {
			if f, err := strconv.ParseFloat(s[:n], 64); err == nil {
				return f
			}
		}
	}
	return 0
}

func toInt(v Val) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case string:
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			return n
		}
	}
	return int64(toNum(v))
}

func cmpVal(a, b Val) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return -1
		}
		return 1
	}
	as, aok := a.(string)
	bs, bok := b.(string)
	if aok && bok {
		return strings.Compare(as, bs)
	}
	if ai, ok := a.(int64); ok {
		if bi, ok := b.(int64); ok {
			switch {
			case ai < bi:
				return -1
			case ai > bi:
				return 1
			}
			return 0
		}
	}
	x, y := toNum(a), toNum(b)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func truth(v Val) bool { return v != nil && toNum(v) != 0 }

func boolVal(b bool) Val {
	if b {
		return int64(1)
	}
	return int64(0)
}

// coerce converts v for column d. In ignore mode bad data is adjusted as MySQL does.
func coerce(d *colDef, v Val, ignore bool) (Val, error) {
	if v == nil {
		if d.notNull && !d.auto {
			if ignore {
				switch d.typ {
				case "BIGINT", "INT", "TINYINT", "BOOLEAN", "BOOL", "SMALLINT", "INTEGER":
					return int64(0), nil
				case "DATETIME", "TIMESTAMP":
					return "0000-00-00 00:00:00", nil
				}
				return "", nil
			}
			return nil, &Error{1048, "23000", "Column '" + d.name + "' cannot be null"}
		}
		return nil, nil
	}
	switch d.typ {
	case "VARBINARY", "VARCHAR", "BINARY", "CHAR":
		s := toStr(v)
		if d.size > 0 && len(s) > d.size {
			if !ignore {
				return nil, &Error{1406, "22001", "Data too long for column '" + d.name + "'"}
			}
			s = s[:d.size]
		}
		if d.typ == "BINARY" {
			for len(s) < d.size {
				s += "\x00"
			}
		}
		return s, nil
	case "LONGBLOB", "BLOB", "MEDIUMBLOB", "TEXT", "LONGTEXT", "TINYBLOB", "MEDIUMTEXT":
		s := toStr(v)
		if d.typ == "BLOB" && len(s) > 65535 {
			if !ignore {
				return nil, &Error{1406, "22001", "Data too long for column '" + d.name + "'"}
			}
			s = s[:65535]
		}
		return s, nil
	case "BIGINT", "INT", "TINYINT", "BOOLEAN", "BOOL", "SMALLINT", "INTEGER", "MEDIUMINT":
		if s, ok := v.(string); ok {
			if _, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64); err != nil && !ignore {
				return nil, errf(1366, "Incorrect integer value: '"+s+"' for column '"+d.name+"'")
			}
		}
		n := toInt(v)
		if (d.typ == "BOOLEAN" || d.typ == "BOOL" || d.typ == "TINYINT") && (n > 255 || n < -128) {
			return nil, &Error{1264, "22003", "Out of range value for column '" + d.name + "'"}
		}
		return n, nil
	case "DATETIME", "TIMESTAMP":
		s, ok := normDatetime(toStr(v))
		if !ok {
			if !ignore {
				return nil, &Error{1292, "22007", "Incorrect datetime value: '" + toStr(v) + "' for column '" + d.name + "'"}
			}
			return "0000-00-00 00:00:00", nil
		}
		return s, nil
	case "DOUBLE", "FLOAT", "DECIMAL":
		return toNum(v), nil
	}
	return nil, unsup("column type %s", d.typ)
}

// normDatetime canonicalises a datetime, rounding fractional seconds like MySQL.
func normDatetime(s string) (string, bool) {
	s = strings.TrimSuffix(s, "Z")
	s = strings.Replace(s, "T", " ", 1)
	if len(s) == 10 {
		s += " 00:00:00"
	}
	if len(s) < 19 {
		return "", false
	}
	frac := ""
	if len(s) > 19 {
		if s[19] != '.' {
			return "", false
		}
		frac = s[20:]
		s = s[:19]
	}
	for i, c := range []byte(s) {
		switch i {
		case 4, 7:
			if c != '-' {
				return "", false
			}
		case 10:
			if c != ' ' {
				return "", false
			}
		case 13, 16:
			if c != ':' {
				return "", false
			}
		default:
			if c < '0' || c > '9' {
				return "", false
			}
		}
	}
	if frac != "" && frac[0] >= '5' {
		t, ok := parseTime(s)
		if !ok {
			return "", false
		}
		s = t
	}
	return s, true
}

// Rows returns the stored values of the columns of a table, for checks. ok is false if there is no
// such table or column.
func (db *DB) Rows(name string, cols ...string) (out [][]Val, ok bool) {
	t := db.tables[strings.ToLower(name)]
	if t == nil {
		return nil, false
	}
	var ix []int
	for _, c := range cols {
		i, ok := t.idx[strings.ToLower(c)]
		if !ok {
			return nil, false
		}
		ix = append(ix, i)
	}
	ids := make([]int64, 0, len(t.rows))
	for id := range t.rows {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		v := make([]Val, len(ix))
		for j, i := range ix {
			v[j] = t.rows[id].v[i]
		}
		out = append(out, v)
	}
	return out, true
}
