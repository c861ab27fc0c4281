package simdb

import (
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"sort"
	"strconv"
	"strings"
	"time"
)

func parseTime(s string) (string, bool) {
	t, err := time.Parse(time.DateTime, s)
	if err != nil {
		return "", false
	}
	return t.Add(time.Second).Format(time.DateTime), true
}

type colRef struct {
	tbl, name string // lower case
	disp      string
}

type rel struct {
	cols []colRef
	rows [][]Val
	src  [][]*row // source rows of each table of the FROM clause (only for DELETE/UPDATE)
}

type scope struct {
	rel   *rel
	row   []Val
	outer *scope
	group [][]Val // rows of the current group, nil outside aggregation
	inAgg bool
	// projected aliases (ORDER BY, HAVING)
	alias map[string]Val
}

func (s *scope) find(tbl, name string) (Val, bool, error) {
	tbl, name = strings.ToLower(tbl), strings.ToLower(name)
	for sc := s; sc != nil; sc = sc.outer {
		if sc.rel == nil {
			continue
		}
		hit := -1
		for i, c := range sc.rel.cols {
			if c.name == name && (tbl == "" || c.tbl == tbl) {
				if hit >= 0 && tbl == "" {
					return nil, false, errf(1052, "Column '"+name+"' is ambiguous")
				}
				if hit < 0 {
					hit = i
				}
			}
		}
		if hit >= 0 {
			if sc.row == nil {
				return nil, true, nil
			}
			return sc.row[hit], true, nil
		}
	}
	return nil, false, nil
}

type env struct {
	s      *Session
	params []Val
	locals map[string]*Val // procedure variables
	ctes   map[string]*rel
	up     *env
}

func (e *env) cte(name string) *rel {
	for x := e; x != nil; x = x.up {
		if r, ok := x.ctes[name]; ok {
			return r
		}
	}
	return nil
}

func (e *env) child() *env {
	return &env{s: e.s, params: e.params, locals: e.locals, ctes: map[string]*rel{}, up: e}
}

func isAggName(n string) bool {
	switch n {
	case "COUNT", "SUM", "MIN", "MAX", "GROUP_CONCAT", "AVG", "BIT_OR", "BIT_AND":
		return true
	}
	return false
}

func hasAgg(x expr) bool {
	switch x := x.(type) {
	case *eFunc:
		if isAggName(x.name) {
			return true
		}
		for _, a := range x.args {
			if hasAgg(a) {
				return true
			}
		}
	case eBin:
		return hasAgg(x.l) || hasAgg(x.r)
	case eUn:
		return hasAgg(x.x)
	case eIsNull:
		return hasAgg(x.x)
	case eCase:
		for _, w := range x.whens {
			if hasAgg(w[0]) || hasAgg(w[1]) {
				return true
			}
		}
		return x.els != nil && hasAgg(x.els)
	}
	return false
}

func (e *env) eval(x expr, sc *scope) (Val, error) {
	switch x := x.(type) {
	case eLit:
		return x.v, nil
	case eParam:
		if x.n >= len(e.params) {
			return nil, errf(1210, "Incorrect arguments to EXECUTE")
		}
		return e.params[x.n], nil
	case eUser:
		return e.s.vars[x.name], nil
	case eSys:
		n := x.name
		n = strings.TrimPrefix(strings.TrimPrefix(n, "session."), "global.")
		if v, ok := e.s.sys[n]; ok {
			return v, nil
		}
		switch n {
		case "secure_file_priv":
			return "", nil
		case "version":
			return "8.0.46", nil
		case "max_allowed_packet":
			return int64(1 << 30), nil
		}
		return nil, unsup("system variable %s", n)
	case eCol:
		if sc != nil {
			v, ok, err := sc.find(x.tbl, x.name)
			if err != nil {
				return nil, err
			}
			if ok {
				return v, nil
			}
			if x.tbl == "" {
				for s := sc; s != nil; s = s.outer {
					if v, ok := s.alias[strings.ToLower(x.name)]; ok {
						return v, nil
					}
				}
			}
		}
		if x.tbl == "" && e.locals != nil {
			if p, ok := e.locals[strings.ToLower(x.name)]; ok {
				return *p, nil
			}
		}
		return nil, &Error{1054, "42S22", "Unknown column '" + x.name + "'"}
	case eUn:
		v, err := e.eval(x.x, sc)
		if err != nil {
			return nil, err
		}
		switch x.op {
		case "NOT":
			if v == nil {
				return nil, nil
			}
			return boolVal(!truth(v)), nil
		case "TRUTH":
			return boolVal(truth(v)), nil
		case "FALSITY":
			return boolVal(v != nil && !truth(v)), nil
		case "-":
			if v == nil {
				return nil, nil
			}
			if n, ok := v.(int64); ok {
				return -n, nil
			}
			return -toNum(v), nil
		}
	case eBin:
		return e.evalBin(x, sc)
	case eIsNull:
		v, err := e.eval(x.x, sc)
		if err != nil {
			return nil, err
		}
		return boolVal((v == nil) != x.not), nil
	case *eIn:
		return e.evalIn(x, sc)
	case eBetween:
		v, err := e.eval(x.x, sc)
		if err != nil {
			return nil, err
		}
		lo, err := e.eval(x.lo, sc)
		if err != nil {
			return nil, err
		}
		hi, err := e.eval(x.hi, sc)
		if err != nil {
			return nil, err
		}
		if v == nil || lo == nil || hi == nil {
			return nil, nil
		}
		return boolVal((cmpVal(v, lo) >= 0 && cmpVal(v, hi) <= 0) != x.not), nil
	case eLike:
		v, err := e.eval(x.x, sc)
		if err != nil {
			return nil, err
		}
		p, err := e.eval(x.pat, sc)
		if err != nil {
			return nil, err
		}
		if v == nil || p == nil {
			return nil, nil
		}
		return boolVal(like(toStr(v), toStr(p)) != x.not), nil
	case eExists:
		r, err := e.child().selectRel(x.sub, sc)
		if err != nil {
			return nil, err
		}
		return boolVal(len(r.rows) > 0), nil
	case eSub:
		r, err := e.child().selectRel(x.sub, sc)
		if err != nil {
			return nil, err
		}
		if len(r.rows) == 0 {
			return nil, nil
		}
		if len(r.rows) > 1 {
			return nil, errf(1242, "Subquery returns more than 1 row")
		}
		return r.rows[0][0], nil
	case eCase:
		var base Val
		var err error
		if x.base != nil {
			if base, err = e.eval(x.base, sc); err != nil {
				return nil, err
			}
		}
		for _, w := range x.whens {
			c, err := e.eval(w[0], sc)
			if err != nil {
				return nil, err
			}
			ok := truth(c)
			if x.base != nil {
				ok = base != nil && c != nil && cmpVal(base, c) == 0
			}
			if ok {
				return e.eval(w[1], sc)
			}
		}
		if x.els == nil {
			return nil, nil
		}
		return e.eval(x.els, sc)
	case *eFunc:
		if isAggName(x.name) {
			return e.evalAgg(x, sc)
		}
		if x.name == "VALUES" && len(x.args) == 1 && sc != nil {
			if c, ok := x.args[0].(eCol); ok {
				if v, ok, err := sc.find(newRow, c.name); ok || err != nil {
					return v, err
				}
			}
		}
		return e.evalFunc(x, sc)
	}
	return nil, unsup("expression %T", x)
}

func like(s, p string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return s != "" && like(s[1:], p[1:])
	case '\\':
		if len(p) > 1 {
			return s != "" && s[0] == p[1] && like(s[1:], p[2:])
		}
	}
	return s != "" && s[0] == p[0] && like(s[1:], p[1:])
}

func (e *env) evalBin(x eBin, sc *scope) (Val, error) {
	l, err := e.eval(x.l, sc)
	if err != nil {
		return nil, err
	}
	switch x.op {
	case "AND":
		if l != nil && !truth(l) {
			return int64(0), nil
		}
		r, err := e.eval(x.r, sc)
		if err != nil {
			return nil, err
		}
		if r != nil && !truth(r) {
			return int64(0), nil
		}
		if l == nil || r == nil {
			return nil, nil
		}
		return int64(1), nil
	case "OR":
		if truth(l) {
			return int64(1), nil
		}
		r, err := e.eval(x.r, sc)
		if err != nil {
			return nil, err
		}
		if truth(r) {
			return int64(1), nil
		}
		if l == nil || r == nil {
			return nil, nil
		}
		return int64(0), nil
	}
	r, err := e.eval(x.r, sc)
	if err != nil {
		return nil, err
	}
	if x.op == "<=>" {
		return boolVal(l == nil && r == nil || l != nil && r != nil && cmpVal(l, r) == 0), nil
	}
	if l == nil || r == nil {
		return nil, nil
	}
	switch x.op {
	case "=":
		return boolVal(cmpVal(l, r) == 0), nil
	case "<>":
		return boolVal(cmpVal(l, r) != 0), nil
	case "<":
		return boolVal(cmpVal(l, r) < 0), nil
	case ">":
		return boolVal(cmpVal(l, r) > 0), nil
	case "<=":
		return boolVal(cmpVal(l, r) <= 0), nil
	case ">=":
		return boolVal(cmpVal(l, r) >= 0), nil
	case ">>":
		return int64(uint64(toInt(l)) >> uint(toInt(r))), nil
	case "<<":
		return int64(uint64(toInt(l)) << uint(toInt(r))), nil
	case "&":
		return toInt(l) & toInt(r), nil
	case "|":
		return toInt(l) | toInt(r), nil
	}
	_, li := l.(int64)
	_, ri := r.(int64)
	if li && ri {
		a, b := l.(int64), r.(int64)
		switch x.op {
		case "+":
			return a + b, nil
		case "-":
			return a - b, nil
		case "*":
			return a * b, nil
		case "%":
			if b == 0 {
				return nil, nil
			}
			return a % b, nil
		case "DIV":
			if b == 0 {
				return nil, nil
			}
			return a / b, nil
		}
	}
	a, b := toNum(l), toNum(r)
	switch x.op {
	case "+":
		return a + b, nil
	case "-":
		return a - b, nil
	case "*":
		return a * b, nil
	case "/":
		if b == 0 {
			return nil, nil
		}
		return a / b, nil
	case "DIV":
		if b == 0 {
			return nil, nil
		}
		return int64(a / b), nil
	case "%":
		if b == 0 {
			return nil, nil
		}
		return int64(a) % int64(b), nil
	}
	return nil, unsup("operator %s", x.op)
}

func (e *env) evalIn(x *eIn, sc *scope) (Val, error) {
	v, err := e.eval(x.x, sc)
	if err != nil {
		return nil, err
	}
	key := inKey{x, e}
	set, ok := e.s.inCache[key]
	if !ok {
		set = &inSet{m: map[string]bool{}}
		if x.sub != nil {
			r, err := e.child().selectRel(x.sub, nil)
			if err != nil {
				return nil, err
			}
			for _, w := range r.rows {
				if w[0] == nil {
					set.null = true
				} else {
					set.m[toStr(w[0])] = true
				}
			}
		} else {
			for _, l := range x.list {
				w, err := e.eval(l, sc)
				if err != nil {
					return nil, err
				}
				if w == nil {
					set.null = true
				} else {
					set.m[toStr(w)] = true
				}
			}
		}
		e.s.inCache[key] = set
	}
	if v == nil {
		return nil, nil
	}
	if set.m[toStr(v)] {
		return boolVal(!x.not), nil
	}
	if set.null {
		return nil, nil
	}
	return boolVal(x.not), nil
}

type inKey struct {
	x *eIn
	e *env
}
type inSet struct {
	m    map[string]bool
	null bool
}

func (e *env) evalAgg(f *eFunc, sc *scope) (Val, error) {
	if sc == nil || sc.group == nil {
		return nil, errf(1111, "Invalid use of group function")
	}
	if f.name == "COUNT" && f.star {
		return int64(len(sc.group)), nil
	}
	type item struct {
		v    Val
		keys []Val
	}
	var items []item
	for _, r := range sc.group {
		s2 := &scope{rel: sc.rel, row: r, outer: sc.outer}
		var it item
		null := false
		var str strings.Builder
		for i, a := range f.args {
			v, err := e.eval(a, s2)
			if err != nil {
				return nil, err
			}
			if v == nil {
				null = true
			}
			if i == 0 {
				it.v = v
			}
			if f.name == "GROUP_CONCAT" {
				str.WriteString(toStr(v))
			}
		}
		if null {
			continue
		}
		if f.name == "GROUP_CONCAT" {
			it.v = str.String()
		}
		for _, o := range f.order {
			v, err := e.eval(o.x, s2)
			if err != nil {
				return nil, err
			}
			it.keys = append(it.keys, v)
		}
		items = append(items, it)
	}
	if f.distinct {
		seen := map[string]bool{}
		w := items[:0]
		for _, it := range items {
			k := toStr(it.v)
			if !seen[k] {
				seen[k] = true
				w = append(w, it)
			}
		}
		items = w
	}
	switch f.name {
	case "COUNT":
		return int64(len(items)), nil
	case "SUM", "AVG":
		if len(items) == 0 {
			return nil, nil
		}
		var n int64
		for _, it := range items {
			n += toInt(it.v)
		}
		if f.name == "AVG" {
			return float64(n) / float64(len(items)), nil
		}
		return n, nil
	case "MIN", "MAX":
		if len(items) == 0 {
			return nil, nil
		}
		best := items[0].v
		for _, it := range items[1:] {
			c := cmpVal(it.v, best)
			if f.name == "MIN" && c < 0 || f.name == "MAX" && c > 0 {
				best = it.v
			}
		}
		return best, nil
	case "GROUP_CONCAT":
		if len(items) == 0 {
			return nil, nil
		}
		if f.order != nil {
			sort.SliceStable(items, func(i, j int) bool {
				for k, o := range f.order {
					c := cmpVal(items[i].keys[k], items[j].keys[k])
					if c != 0 {
						return (c < 0) != o.desc
					}
				}
				return false
			})
		}
		sep := ","
		if f.sep != nil {
			sep = *f.sep
		}
		var b strings.Builder
		for i, it := range items {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(toStr(it.v))
		}
		s := b.String()
		if max := int(toInt(e.s.sys["group_concat_max_len"])); len(s) > max {
			s = s[:max]
		}
		return s, nil
	}
	return nil, unsup("aggregate %s", f.name)
}

func (e *env) evalFunc(f *eFunc, sc *scope) (Val, error) {
	if f.name == "COALESCE" || f.name == "IFNULL" {
		for _, a := range f.args {
			v, err := e.eval(a, sc)
			if err != nil {
				return nil, err
			}
			if v != nil {
				return v, nil
			}
		}
		return nil, nil
	}
	if f.name == "IF" && len(f.args) == 3 {
		c, err := e.eval(f.args[0], sc)
		if err != nil {
			return nil, err
		}
		if truth(c) {
			return e.eval(f.args[1], sc)
		}
		return e.eval(f.args[2], sc)
	}
	args := make([]Val, len(f.args))
	anyNull := false
	for i, a := range f.args {
		v, err := e.eval(a, sc)
		if err != nil {
			return nil, err
		}
		args[i] = v
		anyNull = anyNull || v == nil
	}
	need := func(n int) error {
		if len(args) != n {
			return unsup("%s with %d arguments", f.name, len(args))
		}
		return nil
	}
	switch f.name {
	case "ROW_COUNT":
		return e.s.rowCount, nil
	case "FOUND_ROWS", "LAST_INSERT_ID", "CONNECTION_ID":
		return int64(0), nil
	case "DATABASE":
		return "fpki", nil
	case "VERSION":
		return "8.0.46", nil
	case "NOW", "UTC_TIMESTAMP", "SYSDATE", "CURRENT_TIMESTAMP":
		return time.Now().UTC().Format(time.DateTime), nil
	case "CONCAT_WS", "FIELD", "GREATEST", "LEAST":
		if f.name == "GREATEST" || f.name == "LEAST" {
			if anyNull || len(args) == 0 {
				return nil, nil
			}
			b := args[0]
			for _, a := range args[1:] {
				c := cmpVal(a, b)
				if f.name == "GREATEST" && c > 0 || f.name == "LEAST" && c < 0 {
					b = a
				}
			}
			return b, nil
		}
		return nil, unsup("function %s", f.name)
	case "NULLIF":
		if err := need(2); err != nil {
			return nil, err
		}
		if args[0] != nil && args[1] != nil && cmpVal(args[0], args[1]) == 0 {
			return nil, nil
		}
		return args[0], nil
	case "ISNULL":
		return boolVal(len(args) == 1 && args[0] == nil), nil
	case "VALUES":
		return nil, unsup("VALUES()")
	}
	if anyNull {
		return nil, nil
	}
	switch f.name {
	case "CONCAT":
		var b strings.Builder
		for _, a := range args {
			b.WriteString(toStr(a))
		}
		return b.String(), nil
	case "LEFT":
		if err := need(2); err != nil {
			return nil, err
		}
		s, n := toStr(args[0]), int(toInt(args[1]))
		if n < 0 {
			n = 0
		}
		if n > len(s) {
			n = len(s)
		}
		return s[:n], nil
	case "RIGHT":
		if err := need(2); err != nil {
			return nil, err
		}
		s, n := toStr(args[0]), int(toInt(args[1]))
		if n > len(s) {
			n = len(s)
		}
		return s[len(s)-n:], nil
	case "SUBSTRING", "SUBSTR", "MID":
		s, st := toStr(args[0]), int(toInt(args[1]))
		if st > 0 {
			st--
		} else if st < 0 {
			st += len(s)
		}
		if st < 0 || st >= len(s) {
			return "", nil
		}
		s = s[st:]
		if len(args) == 3 {
			n := int(toInt(args[2]))
			if n < 0 {
				n = 0
			}
			if n < len(s) {
				s = s[:n]
			}
		}
		return s, nil
	case "ORD", "ASCII":
		s := toStr(args[0])
		if s == "" {
			return int64(0), nil
		}
		return int64(s[0]), nil
	case "HEX":
		if n, ok := args[0].(int64); ok {
			return strings.ToUpper(strconv.FormatInt(n, 16)), nil
		}
		return strings.ToUpper(hex.EncodeToString([]byte(toStr(args[0])))), nil
	case "UNHEX":
		b, err := hex.DecodeString(toStr(args[0]))
		if err != nil {
			return nil, nil
		}
		return string(b), nil
	case "SHA2":
		if err := need(2); err != nil {
			return nil, err
		}
		s := []byte(toStr(args[0]))
		switch toInt(args[1]) {
		case 256, 0:
			h := sha256.Sum256(s)
			return hex.EncodeToString(h[:]), nil
		case 512:
			h := sha512.Sum512(s)
			return hex.EncodeToString(h[:]), nil
		}
		return nil, nil
	case "SHA1", "SHA":
		h := sha1.Sum([]byte(toStr(args[0])))
		return hex.EncodeToString(h[:]), nil
	case "FROM_BASE64":
		s := strings.Map(func(r rune) rune {
			if r == '\n' || r == '\r' || r == ' ' || r == '\t' {
				return -1
			}
			return r
		}, toStr(args[0]))
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			return nil, nil
		}
		return string(b), nil
	case "TO_BASE64":
		return base64.StdEncoding.EncodeToString([]byte(toStr(args[0]))), nil
	case "LENGTH", "OCTET_LENGTH":
		return int64(len(toStr(args[0]))), nil
	case "CHAR_LENGTH":
		return int64(len([]rune(toStr(args[0])))), nil
	case "LOWER", "LCASE":
		return strings.ToLower(toStr(args[0])), nil
	case "UPPER", "UCASE":
		return strings.ToUpper(toStr(args[0])), nil
	case "TRIM":
		return strings.Trim(toStr(args[0]), " "), nil
	case "REPLACE":
		return strings.ReplaceAll(toStr(args[0]), toStr(args[1]), toStr(args[2])), nil
	case "MOD":
		return toInt(args[0]) % toInt(args[1]), nil
	case "ABS":
		n := toInt(args[0])
		if n < 0 {
			n = -n
		}
		return n, nil
	case "CAST_CHAR", "CAST_BINARY":
		return toStr(args[0]), nil
	case "CAST_SIGNED", "CAST_UNSIGNED":
		return toInt(args[0]), nil
	case "CAST_DATETIME":
		s, ok := normDatetime(toStr(args[0]))
		if !ok {
			return nil, nil
		}
		return s, nil
	case "UNIX_TIMESTAMP":
		t, err := time.Parse(time.DateTime, toStr(args[0]))
		if err != nil {
			return nil, nil
		}
		return t.Unix(), nil
	}
	return nil, unsup("function %s", f.name)
}

// ---- SELECT

func (e *env) selectRel(s *selectStmt, outer *scope) (*rel, error) {
	if len(s.with) > 0 {
		e = e.child()
		for i := range s.with {
			if err := e.evalCTE(&s.with[i], s.recursive); err != nil {
				return nil, err
			}
		}
	}
	single := len(s.cores) == 1
	var out *rel
	var keys [][]Val
	for i, c := range s.cores {
		var order []orderItem
		if single {
			order = s.order
		}
		r, k, err := e.coreRel(c, outer, order)
		if err != nil {
			return nil, err
		}
		if i == 0 {
			out, keys = r, k
			continue
		}
		if len(r.cols) != len(out.cols) {
			return nil, errf(1222, "The used SELECT statements have a different number of columns")
		}
		out = &rel{cols: out.cols, rows: append(append([][]Val{}, out.rows...), r.rows...)}
		if !s.unionAll[i-1] {
			out.rows = distinct(out.rows)
		}
	}
	if s.order != nil && !single {
		keys = make([][]Val, len(out.rows))
		for i, r := range out.rows {
			sc := &scope{rel: out, row: r, outer: outer}
			for _, o := range s.order {
				v, err := e.orderKey(o.x, sc, r)
				if err != nil {
					return nil, err
				}
				keys[i] = append(keys[i], v)
			}
		}
	}
	if s.order != nil {
		idx := make([]int, len(out.rows))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool {
			for k, o := range s.order {
				c := cmpVal(keys[idx[a]][k], keys[idx[b]][k])
				if c != 0 {
					return (c < 0) != o.desc
				}
			}
			return false
		})
		rows := make([][]Val, len(idx))
		for i, j := range idx {
			rows[i] = out.rows[j]
		}
		out = &rel{cols: out.cols, rows: rows}
	}
	if s.limit != nil {
		n, err := e.eval(s.limit, outer)
		if err != nil {
			return nil, err
		}
		off := int64(0)
		if s.offset != nil {
			o, err := e.eval(s.offset, outer)
			if err != nil {
				return nil, err
			}
			off = toInt(o)
		}
		rows := out.rows
		if off > int64(len(rows)) {
			off = int64(len(rows))
		}
		rows = rows[off:]
		if m := toInt(n); m < int64(len(rows)) {
			rows = rows[:m]
		}
		out = &rel{cols: out.cols, rows: rows}
	}
	return out, nil
}

func (e *env) orderKey(x expr, sc *scope, projected []Val) (Val, error) {
	if l, ok := x.(eLit); ok {
		if n, ok := l.v.(int64); ok && n >= 1 && int(n) <= len(projected) {
			return projected[n-1], nil
		}
	}
	return e.eval(x, sc)
}

func distinct(rows [][]Val) [][]Val {
	seen := map[string]bool{}
	out := make([][]Val, 0, len(rows))
	for _, r := range rows {
		k := rowKey(r)
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

func rowKey(r []Val) string {
	var b strings.Builder
	for _, v := range r {
		if v == nil {
			b.WriteString("N;")
			continue
		}
		s := toStr(v)
		b.WriteString(strconv.Itoa(len(s)))
		b.WriteByte(':')
		b.WriteString(s)
	}
	return b.String()
}

func (e *env) evalCTE(c *cte, recursive bool) error {
	name := strings.ToLower(c.name)
	rename := func(r *rel) *rel {
		cols := make([]colRef, len(r.cols))
		for i, k := range r.cols {
			cols[i] = colRef{tbl: name, name: k.name, disp: k.disp}
			if c.cols != nil {
				cols[i].name, cols[i].disp = strings.ToLower(c.cols[i]), c.cols[i]
			}
		}
		return &rel{cols: cols, rows: r.rows}
	}
	self := false
	if recursive {
		for _, k := range c.sel.cores {
			if k.from != nil && refersTo(k.from, name) {
				self = true
			}
		}
	}
	if !self {
		r, err := e.selectRel(c.sel, nil)
		if err != nil {
			return err
		}
		e.ctes[name] = rename(r)
		return nil
	}
	if len(c.sel.cores) < 2 || c.sel.limit != nil {
		return unsup("recursive CTE form")
	}
	base, _, err := e.coreRel(c.sel.cores[0], nil, nil)
	if err != nil {
		return err
	}
	base = rename(base)
	seen := map[string]bool{}
	all := &rel{cols: base.cols}
	delta := base.rows
	dedup := !c.sel.unionAll[0]
	first := true
	total := 0
	for iter := 0; ; iter++ {
		var fresh [][]Val
		for _, r := range delta {
			if dedup {
				k := rowKey(r)
				if seen[k] {
					continue
				}
				seen[k] = true
			}
			fresh = append(fresh, r)
		}
		all.rows = append(all.rows, fresh...)
		total += len(fresh)
		if len(fresh) == 0 && !first {
			break
		}
		first = false
		if len(fresh) == 0 {
			break
		}
		if iter > 1000 {
			return errf(3636, "Recursive query aborted after 1001 iterations. Try increasing @@cte_max_recursion_depth to a larger value.")
		}
		e.ctes[name] = &rel{cols: base.cols, rows: fresh}
		delta = nil
		for _, k := range c.sel.cores[1:] {
			r, _, err := e.coreRel(k, nil, nil)
			if err != nil {
				return err
			}
			delta = append(delta, r.rows...)
		}
	}
	e.ctes[name] = all
	return nil
}

func refersTo(t *tableRef, name string) bool {
	if t.join != nil {
		return refersTo(t.join.l, name) || refersTo(t.join.r, name)
	}
	return t.sub == nil && strings.ToLower(t.name) == name
}

func (e *env) coreRel(c *selectCore, outer *scope, order []orderItem) (*rel, [][]Val, error) {
	if c.nested != nil {
		r, err := e.child().selectRel(c.nested, outer)
		if err == nil && order != nil {
			err = unsup("ORDER BY over parenthesised select")
		}
		return r, nil, err
	}
	in := &rel{rows: [][]Val{{}}}
	if c.from != nil {
		var err error
		in, err = e.fromRel(c.from, outer, false, c.where)
		if err != nil {
			return nil, nil, err
		}
	}
	rows := in.rows
	if c.where != nil {
		w := make([][]Val, 0, len(rows))
		for _, r := range rows {
			v, err := e.eval(c.where, &scope{rel: in, row: r, outer: outer})
			if err != nil {
				return nil, nil, err
			}
			if truth(v) {
				w = append(w, r)
			}
		}
		rows = w
	}
	// projection columns
	out := &rel{}
	type proj struct {
		x   expr
		idx int
	}
	var ps []proj
	agg := len(c.group) > 0
	for _, it := range c.items {
		if st, ok := it.x.(eStar); ok {
			for i, k := range in.cols {
				if st.tbl == "" || k.tbl == strings.ToLower(st.tbl) {
					out.cols = append(out.cols, k)
					ps = append(ps, proj{nil, i})
				}
			}
			continue
		}
		n := it.alias
		if n == "" {
			if col, ok := it.x.(eCol); ok {
				n = col.name
			} else {
				n = it.text
			}
		}
		tbl := ""
		if col, ok := it.x.(eCol); ok && it.alias == "" {
			tbl = strings.ToLower(col.tbl)
		}
		out.cols = append(out.cols, colRef{tbl: tbl, name: strings.ToLower(n), disp: n})
		ps = append(ps, proj{it.x, -1})
		if hasAgg(it.x) {
			agg = true
		}
	}
	if c.having != nil && hasAgg(c.having) {
		agg = true
	}
	var scopes []*scope
	if agg {
		groups := map[string]int{}
		if len(c.group) == 0 {
			sc := &scope{rel: in, outer: outer, group: rows}
			if sc.group == nil {
				sc.group = [][]Val{}
			}
			if len(rows) > 0 {
				sc.row = rows[0]
			}
			scopes = append(scopes, sc)
		} else {
			for _, r := range rows {
				sc := &scope{rel: in, row: r, outer: outer}
				var k []Val
				for _, g := range c.group {
					v, err := e.eval(g, sc)
					if err != nil {
						return nil, nil, err
					}
					k = append(k, v)
				}
				ks := rowKey(k)
				i, ok := groups[ks]
				if !ok {
					i = len(scopes)
					groups[ks] = i
					sc.group = [][]Val{}
					scopes = append(scopes, sc)
				}
				scopes[i].group = append(scopes[i].group, r)
			}
		}
	} else {
		scopes = make([]*scope, len(rows))
		for i, r := range rows {
			scopes[i] = &scope{rel: in, row: r, outer: outer}
		}
	}
	var keys [][]Val
	seen := map[string]bool{}
	for _, sc := range scopes {
		pr := make([]Val, len(ps))
		for i, p := range ps {
			if p.x == nil {
				pr[i] = sc.row[p.idx]
				continue
			}
			v, err := e.eval(p.x, sc)
			if err != nil {
				return nil, nil, err
			}
			pr[i] = v
		}
		if c.having != nil || order != nil {
			sc.alias = map[string]Val{}
			for i, k := range out.cols {
				sc.alias[k.name] = pr[i]
			}
		}
		if c.having != nil {
			v, err := e.eval(c.having, sc)
			if err != nil {
				return nil, nil, err
			}
			if !truth(v) {
				continue
			}
		}
		if c.distinct {
			k := rowKey(pr)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		if order != nil {
			var k []Val
			for _, o := range order {
				v, err := e.orderKey(o.x, sc, pr)
				if err != nil {
					return nil, nil, err
				}
				k = append(k, v)
			}
			keys = append(keys, k)
		}
		out.rows = append(out.rows, pr)
	}
	return out, keys, nil
}

// fromRel evaluates a FROM clause. track keeps the source rows (for DELETE and UPDATE). where may
// be used to narrow a single base table by an equality on a column.
func (e *env) fromRel(t *tableRef, outer *scope, track bool, where expr) (*rel, error) {
	if t.join != nil {
		return e.joinRel(t.join, outer, track)
	}
	alias := strings.ToLower(t.alias)
	if t.sub != nil {
		r, err := e.child().selectRel(t.sub, nil)
		if err != nil {
			return nil, err
		}
		o := &rel{rows: r.rows, cols: make([]colRef, len(r.cols))}
		for i, c := range r.cols {
			o.cols[i] = colRef{alias, c.name, c.disp}
		}
		if track {
			o.src = make([][]*row, len(o.rows))
			for i := range o.src {
				o.src[i] = []*row{nil}
			}
		}
		return o, nil
	}
	name := strings.ToLower(t.name)
	if r := e.cte(name); r != nil {
		o := &rel{rows: r.rows, cols: make([]colRef, len(r.cols))}
		for i, c := range r.cols {
			o.cols[i] = colRef{alias, c.name, c.disp}
		}
		if track {
			return nil, unsup("CTE in a modifying statement")
		}
		return o, nil
	}
	if strings.HasPrefix(name, "information_schema.") {
		return nil, unsup("table %s", name)
	}
	tb, err := e.s.table(t.name)
	if err != nil {
		return nil, err
	}
	parts, err := partSet(tb, t.part)
	if err != nil {
		return nil, err
	}
	o := &rel{cols: make([]colRef, len(tb.cols))}
	for i, c := range tb.cols {
		o.cols[i] = colRef{alias, strings.ToLower(c.name), c.name}
	}
	rows := tb.scan()
	if !track {
		if pr := e.pointRows(tb, alias, where, outer); pr != nil {
			rows = pr
		}
	}
	for _, r := range rows {
		if parts != nil && !parts[r.part] {
			continue
		}
		o.rows = append(o.rows, r.v)
		if track {
			o.src = append(o.src, []*row{r})
		}
	}
	e.s.touched += len(o.rows)
	return o, nil
}

// pointRows narrows "WHERE uniquecol = const" on a table with a single-column unique key.
func (e *env) pointRows(tb *table, alias string, where expr, outer *scope) []*row {
	b, ok := where.(eBin)
	if !ok || b.op != "=" {
		return nil
	}
	col, ok := b.l.(eCol)
	if !ok {
		return nil
	}
	switch b.r.(type) {
	case eLit, eParam:
	default:
		return nil
	}
	for i, u := range tb.uniq {
		if len(u) == 1 && strings.EqualFold(tb.cols[u[0]].name, col.name) {
			v, err := e.eval(b.r, outer)
			if err != nil || v == nil {
				return nil
			}
			s := toStr(v)
			if r := tb.uix[i][strconv.Itoa(len(s))+":"+s]; r != nil {
				return []*row{r}
			}
			return []*row{}
		}
	}
	return nil
}

func partSet(tb *table, names []string) (map[int]bool, error) {
	if names == nil {
		return nil, nil
	}
	m := map[int]bool{}
	for _, n := range names {
		k, err := strconv.Atoi(strings.TrimPrefix(n, "p"))
		if err != nil || k < 0 || k >= tb.partN {
			return nil, errf(1735, "Unknown partition '"+n+"' in table '"+tb.name+"'")
		}
		m[k] = true
	}
	return m, nil
}

func countTables(t *tableRef) int {
	if t.join != nil {
		return countTables(t.join.l) + countTables(t.join.r)
	}
	return 1
}

func resolves(r *rel, x expr) bool {
	c, ok := x.(eCol)
	if !ok {
		return false
	}
	for _, k := range r.cols {
		if k.name == strings.ToLower(c.name) && (c.tbl == "" || k.tbl == strings.ToLower(c.tbl)) {
			return true
		}
	}
	return false
}

func conjuncts(x expr) []expr {
	if b, ok := x.(eBin); ok && b.op == "AND" {
		return append(conjuncts(b.l), conjuncts(b.r)...)
	}
	return []expr{x}
}

func (e *env) joinRel(j *joinRef, outer *scope, track bool) (*rel, error) {
	l, err := e.fromRel(j.l, outer, track, nil)
	if err != nil {
		return nil, err
	}
	r, err := e.fromRel(j.r, outer, track, nil)
	if err != nil {
		return nil, err
	}
	if j.kind == "RIGHT" {
		return nil, unsup("RIGHT JOIN")
	}
	out := &rel{cols: append(append([]colRef{}, l.cols...), r.cols...)}
	var lk, rk expr
	if j.on != nil {
		for _, c := range conjuncts(j.on) {
			if b, ok := c.(eBin); ok && b.op == "=" {
				if resolves(l, b.l) && resolves(r, b.r) && !resolves(r, b.l) {
					lk, rk = b.l, b.r
				} else if resolves(l, b.r) && resolves(r, b.l) && !resolves(r, b.r) {
					lk, rk = b.r, b.l
				} else if lt, ok := b.l.(eCol); ok && lt.tbl != "" {
					if resolves(l, b.l) && resolves(r, b.r) {
						lk, rk = b.l, b.r
					} else if resolves(l, b.r) && resolves(r, b.l) {
						lk, rk = b.r, b.l
					}
				}
				if lk != nil {
					break
				}
			}
		}
	}
	var hash map[string][]int
	if lk != nil {
		hash = map[string][]int{}
		for i, w := range r.rows {
			v, err := e.eval(rk, &scope{rel: r, row: w})
			if err != nil {
				return nil, err
			}
			if v != nil {
				k := toStr(v)
				hash[k] = append(hash[k], i)
			}
		}
	}
	nt := 0
	if track {
		nt = countTables(j.r)
	}
	emit := func(li, ri int) {
		nr := make([]Val, 0, len(out.cols))
		nr = append(nr, l.rows[li]...)
		if ri >= 0 {
			nr = append(nr, r.rows[ri]...)
		} else {
			nr = append(nr, make([]Val, len(r.cols))...)
		}
		out.rows = append(out.rows, nr)
		if track {
			src := append([]*row{}, l.src[li]...)
			if ri >= 0 {
				src = append(src, r.src[ri]...)
			} else {
				src = append(src, make([]*row, nt)...)
			}
			out.src = append(out.src, src)
		}
	}
	for li, lw := range l.rows {
		matched := false
		try := func(ri int) error {
			if j.on != nil {
				nr := append(append(make([]Val, 0, len(out.cols)), lw...), r.rows[ri]...)
				v, err := e.eval(j.on, &scope{rel: out, row: nr, outer: outer})
				if err != nil {
					return err
				}
				if !truth(v) {
					return nil
				}
			}
			matched = true
			emit(li, ri)
			return nil
		}
		if hash != nil {
			v, err := e.eval(lk, &scope{rel: l, row: lw})
			if err != nil {
				return nil, err
			}
			if v != nil {
				for _, ri := range hash[toStr(v)] {
					if err := try(ri); err != nil {
						return nil, err
					}
				}
			}
		} else {
			for ri := range r.rows {
				if err := try(ri); err != nil {
					return nil, err
				}
			}
		}
		if !matched && j.kind == "LEFT" {
			emit(li, -1)
		}
	}
	return out, nil
}
