package simdb

import (
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

// DB is the simulated server: durable tables and procedures.
type DB struct {
	tables map[string]*table
	procs  map[string]*proc
	parsed map[string]*script

	// Inner is called before every statement inside a stored procedure; an error aborts the CALL at
	// that point, leaving the effects of the earlier (autocommitted) statements.
	Inner func(s *Session, text string) error

	Stmts       int
	Unsupported string // first unsupported construct met, if any
	nextSess    uint32
	dtCols      map[string]bool
}

type script struct {
	stmts  []any
	texts  []string
	nparam int
}

func NewDB() *DB {
	return &DB{tables: map[string]*table{}, procs: map[string]*proc{}, parsed: map[string]*script{}}
}

// Session is one client connection's state.
type Session struct {
	db       *DB
	ID       uint32
	vars     map[string]Val
	sys      map[string]Val
	temps    map[string]*table
	prepared map[string]*script
	inCache  map[inKey]*inSet
	rowCount int64
	touched  int
	inTx     bool
	undo     []undoRec
	depth    int
}

type undoRec struct {
	t   *table
	add *row // row that was added
	del *row // row that was removed
}

// Result of one statement.
type Result struct {
	Cols     []string
	Rows     [][]Val
	IsSelect bool
	Affected int64
	InsertID int64
}

func (db *DB) NewSession() *Session {
	db.nextSess++
	return &Session{db: db, ID: db.nextSess, vars: map[string]Val{}, temps: map[string]*table{}, prepared: map[string]*script{},
		sys: map[string]Val{"group_concat_max_len": int64(1024), "autocommit": int64(1), "max_allowed_packet": int64(1 << 30)}}
}

// Close ends the session: its open transaction is rolled back, temporary tables vanish.
func (s *Session) Close() {
	s.rollback(0)
	s.temps = nil
}

func (s *Session) table(name string) (*table, error) {
	n := strings.ToLower(name)
	if t := s.temps[n]; t != nil {
		return t, nil
	}
	if t := s.db.tables[n]; t != nil {
		return t, nil
	}
	return nil, &Error{1146, "42S02", "Table 'fpki." + name + "' doesn't exist"}
}

func (db *DB) parse(sql string) (*script, error) {
	if p := db.parsed[sql]; p != nil {
		return p, nil
	}
	ts, err := lex(sql)
	if err != nil {
		return nil, err
	}
	n := 0
	for _, t := range ts {
		if t.k == tParam {
			n++
		}
	}
	stmts, texts, err := parseScript(sql)
	if err != nil {
		return nil, err
	}
	p := &script{stmts, texts, n}
	if len(sql) < 2000 && len(db.parsed) < 2000 {
		db.parsed[sql] = p
	}
	return p, nil
}

// Exec runs one statement text (several statements only if they are all side effects of a script).
func (s *Session) Exec(sql string, params []Val) (res *Result, err error) {
	defer func() {
		if u, ok := err.(*Unsupported); ok && s.db.Unsupported == "" {
			s.db.Unsupported = u.Msg
		}
	}()
	p, err := s.db.parse(sql)
	if err != nil {
		return nil, err
	}
	if len(p.stmts) == 0 {
		return nil, &Error{1065, "42000", "Query was empty"}
	}
	if len(p.stmts) > 1 {
		return nil, &Error{1064, "42000", "You have an error in your SQL syntax (multi statements)"}
	}
	return s.run(p.stmts[0], &env{s: s, params: params})
}

// run executes one parsed statement atomically.
func (s *Session) run(st any, e *env) (*Result, error) {
	s.db.Stmts++
	s.inCache = map[inKey]*inSet{}
	mark := len(s.undo)
	res, err := s.exec1(st, e)
	if err != nil {
		if _, isCall := st.(*callStmt); !isCall {
			s.rollback(mark)
		}
		return nil, err
	}
	if !s.inTx && s.depth == 0 {
		s.undo = s.undo[:0]
	}
	if res == nil {
		res = &Result{}
	}
	if !res.IsSelect {
		s.rowCount = res.Affected
	}
	return res, nil
}

func (s *Session) rollback(mark int) {
	for i := len(s.undo) - 1; i >= mark; i-- {
		u := s.undo[i]
		if u.add != nil {
			u.t.del(u.add)
		}
		if u.del != nil {
			u.t.add(u.del)
		}
	}
	s.undo = s.undo[:mark]
}

func (s *Session) addRow(t *table, r *row) {
	t.add(r)
	s.undo = append(s.undo, undoRec{t: t, add: r})
}

func (s *Session) delRow(t *table, r *row) {
	t.del(r)
	s.undo = append(s.undo, undoRec{t: t, del: r})
}

type leaveSig struct{ label string }
type iterSig struct{ label string }

func (leaveSig) Error() string { return "LEAVE" }
func (iterSig) Error() string  { return "ITERATE" }

func (s *Session) exec1(st any, e *env) (*Result, error) {
	db := s.db
	switch st := st.(type) {
	case *selectStmt:
		r, err := e.child().selectRel(st, nil)
		if err != nil {
			return nil, err
		}
		if st.into != nil {
			if len(r.rows) > 1 {
				return nil, errf(1172, "Result consisted of more than one row")
			}
			if len(r.rows) == 1 {
				for i, n := range st.into {
					if strings.HasPrefix(n, "@") {
						s.vars[n[1:]] = r.rows[0][i]
					} else if p := e.locals[n]; p != nil {
						*p = r.rows[0][i]
					} else {
						return nil, errf(1327, "Undeclared variable: "+n)
					}
				}
			}
			return &Result{Affected: int64(len(r.rows))}, nil
		}
		res := &Result{IsSelect: true, Rows: r.rows}
		for _, c := range r.cols {
			res.Cols = append(res.Cols, c.disp)
		}
		return res, nil
	case *insertStmt:
		return s.insert(st, e)
	case *loadStmt:
		return s.load(st, e)
	case *deleteStmt:
		return s.delete(st, e)
	case *updateStmt:
		return s.update(st, e)
	case *truncateStmt:
		t, err := s.table(st.table)
		if err != nil {
			return nil, err
		}
		s.commit()
		t.clear()
		return nil, nil
	case *createTable:
		t, err := newTable(st)
		if err != nil {
			return nil, err
		}
		n := strings.ToLower(st.name)
		m := db.tables
		if st.temp {
			m = s.temps
		} else {
			s.commit()
		}
		if m[n] != nil {
			if st.ifNot {
				return nil, nil
			}
			return nil, &Error{1050, "42S01", "Table '" + st.name + "' already exists"}
		}
		m[n] = t
		return nil, nil
	case *dropTable:
		for _, name := range st.names {
			n := strings.ToLower(name)
			switch {
			case s.temps[n] != nil:
				delete(s.temps, n)
			case !st.temp && db.tables[n] != nil:
				s.commit()
				delete(db.tables, n)
			case !st.ifExists:
				return nil, &Error{1051, "42S02", "Unknown table 'fpki." + name + "'"}
			}
		}
		return nil, nil
	case *createProc:
		if db.procs[st.p.name] != nil {
			return nil, errf(1304, "PROCEDURE "+st.p.name+" already exists")
		}
		db.procs[st.p.name] = st.p
		return nil, nil
	case *dropProc:
		delete(db.procs, strings.ToLower(st.name))
		return nil, nil
	case *dbStmt:
		if st.op == "DROP" {
			db.tables = map[string]*table{}
			db.procs = map[string]*proc{}
		}
		return nil, nil
	case *callStmt:
		return s.call(st, e)
	case *setStmt:
		for _, a := range st.as {
			v, err := e.eval(a.x, nil)
			if err != nil {
				return nil, err
			}
			switch {
			case a.user:
				s.vars[a.col] = v
			case !a.sys && e.locals[a.col] != nil:
				*e.locals[a.col] = v
			default:
				if a.col == "autocommit" {
					switch strings.ToLower(toStr(v)) {
					case "true", "1", "on":
						v = int64(1)
					default:
						return nil, unsup("autocommit off")
					}
				}
				s.sys[a.col] = v
			}
		}
		return nil, nil
	case *prepareStmt:
		v, err := e.eval(st.from, nil)
		if err != nil {
			return nil, err
		}
		p, err := db.parse(toStr(v))
		if err != nil {
			return nil, err
		}
		if len(p.stmts) != 1 {
			return nil, &Error{1064, "42000", "You have an error in your SQL syntax"}
		}
		s.prepared[st.name] = p
		return nil, nil
	case *executeStmt:
		p := s.prepared[st.name]
		if p == nil {
			return nil, errf(1243, "Unknown prepared statement handler ("+st.name+") given to EXECUTE")
		}
		var ps []Val
		for _, u := range st.using {
			v, err := e.eval(u, nil)
			if err != nil {
				return nil, err
			}
			ps = append(ps, v)
		}
		// Prepared statements see user variables but no procedure locals.
		return s.exec1(p.stmts[0], &env{s: s, params: ps})
	case *deallocStmt:
		if s.prepared[st.name] == nil {
			return nil, errf(1243, "Unknown prepared statement handler ("+st.name+") given to DEALLOCATE PREPARE")
		}
		delete(s.prepared, st.name)
		return nil, nil
	case *txStmt:
		switch st.op {
		case "BEGIN":
			s.commit()
			s.inTx = true
		case "COMMIT":
			s.commit()
		case "ROLLBACK":
			s.rollback(0)
			s.inTx = false
		}
		return nil, nil
	case *nopStmt:
		return nil, nil
	case *showStmt:
		up := strings.ToUpper(st.what)
		if strings.HasPrefix(up, "STATUS") {
			return &Result{IsSelect: true, Cols: []string{"Variable_name", "Value"}, Rows: [][]Val{{"max_used_connections", "1"}}}, nil
		}
		if strings.HasPrefix(up, "WARNINGS") {
			return &Result{IsSelect: true, Cols: []string{"Level", "Code", "Message"}}, nil
		}
		return nil, unsup("SHOW %s", st.what)
	}
	return nil, unsup("statement %T", st)
}

func (s *Session) commit() {
	s.undo = s.undo[:0]
	s.inTx = false
}

func (s *Session) call(st *callStmt, e *env) (*Result, error) {
	p := s.db.procs[strings.ToLower(st.name)]
	if p == nil {
		return nil, &Error{1305, "42000", "PROCEDURE fpki." + st.name + " does not exist"}
	}
	if len(st.args) != len(p.params) {
		return nil, &Error{1318, "42000", "Incorrect number of arguments for PROCEDURE " + st.name}
	}
	loc := map[string]*Val{}
	for i, pp := range p.params {
		var v Val
		if pp.mode != "OUT" {
			x, err := e.eval(st.args[i], nil)
			if err != nil {
				return nil, err
			}
			v = x
			if x != nil {
				c := colDef{name: pp.name, typ: pp.typ}
				if v, err = coerce(&c, x, false); err != nil {
					return nil, err
				}
			}
		}
		loc[pp.name] = &v
	}
	if s.depth > 8 {
		return nil, errf(1456, "Recursive limit exceeded")
	}
	s.depth++
	res := &Result{}
	err := s.body(p.body, &env{s: s, locals: loc}, res)
	s.depth--
	if _, ok := err.(leaveSig); ok {
		err = nil
	}
	if err != nil {
		return nil, err
	}
	for i, pp := range p.params {
		if pp.mode == "IN" {
			continue
		}
		switch a := st.args[i].(type) {
		case eUser:
			s.vars[a.name] = *loc[pp.name]
		case eCol:
			if q := e.locals[strings.ToLower(a.name)]; q != nil {
				*q = *loc[pp.name]
			}
		default:
			return nil, errf(1414, "OUT or INOUT argument is not a variable")
		}
	}
	return &Result{Affected: res.Affected}, nil
}

func (s *Session) bodyList(l []any, e *env, res *Result) error {
	for _, st := range l {
		if err := s.body(st, e, res); err != nil {
			return err
		}
	}
	return nil
}

func (s *Session) body(st any, e *env, res *Result) error {
	switch st := st.(type) {
	case *blockStmt:
		err := s.bodyList(st.body, e, res)
		if l, ok := err.(leaveSig); ok && st.label != "" && l.label == st.label {
			return nil
		}
		return err
	case *ifStmt:
		for i, c := range st.conds {
			v, err := e.eval(c, nil)
			if err != nil {
				return err
			}
			if truth(v) {
				return s.bodyList(st.thens[i], e, res)
			}
		}
		return s.bodyList(st.els, e, res)
	case *whileStmt:
		for n := 0; ; n++ {
			if n > 100000 {
				return unsup("procedure loop does not end")
			}
			v, err := e.eval(st.cond, nil)
			if err != nil {
				return err
			}
			if !truth(v) {
				return nil
			}
			err = s.bodyList(st.body, e, res)
			if l, ok := err.(leaveSig); ok && l.label == st.label {
				return nil
			}
			if l, ok := err.(iterSig); ok && l.label == st.label {
				continue
			}
			if err != nil {
				return err
			}
		}
	case *repeatStmt:
		for n := 0; ; n++ {
			if n > 100000 {
				return unsup("procedure loop does not end")
			}
			err := s.bodyList(st.body, e, res)
			if l, ok := err.(leaveSig); ok && l.label == st.label {
				return nil
			}
			if l, ok := err.(iterSig); ok && l.label == st.label {
				err = nil
			}
			if err != nil {
				return err
			}
			v, err := e.eval(st.until, nil)
			if err != nil {
				return err
			}
			if truth(v) {
				return nil
			}
		}
	case *leaveStmt:
		return leaveSig{st.label}
	case *iterateStmt:
		return iterSig{st.label}
	case *declareStmt:
		for _, n := range st.names {
			var v Val
			if st.def != nil {
				x, err := e.eval(st.def, nil)
				if err != nil {
					return err
				}
				v = x
			}
			e.locals[n] = &v
		}
		return nil
	}
	switch st.(type) {
	case *setStmt, *prepareStmt, *deallocStmt, *nopStmt:
	default:
		if s.db.Inner != nil {
			if err := s.db.Inner(s, ""); err != nil {
				return err
			}
		}
	}
	// each statement of a procedure is its own transaction (autocommit)
	depth := s.depth
	s.depth = 0
	if _, ok := st.(*callStmt); ok {
		s.depth = depth
	}
	r, err := s.run(st, e)
	s.depth = depth
	if err == nil && r != nil && !r.IsSelect {
		res.Affected += 0 + r.Affected
	}
	return err
}

func (t *table) partOf(v []Val, e *env) (int, error) {
	if t.partN <= 1 || t.partBy == nil {
		return 0, nil
	}
	r := t.relOf()
	p, err := e.eval(t.partBy, &scope{rel: r, row: v})
	if err != nil {
		return 0, err
	}
	n := toInt(p) % int64(t.partN)
	if n < 0 {
		n = -n
	}
	return int(n), nil
}

func (t *table) relOf() *rel {
	r := &rel{}
	for _, c := range t.cols {
		r.cols = append(r.cols, colRef{strings.ToLower(t.name), strings.ToLower(c.name), c.name})
	}
	return r
}

// newRow is the name of the row to insert in VALUES(column).
const newRow = "\x00new"

// newRel is the relation of a row to insert, under another name than that of the table.
func (t *table) newRel(name string) *rel {
	r := t.relOf()
	for i := range r.cols {
		r.cols[i].tbl = strings.ToLower(name)
	}
	return r
}

// finish computes generated columns and defaults, and checks types.
func (s *Session) finish(t *table, v []Val, given []bool, ignore bool, e *env) (*row, error) {
	for i := range t.cols {
		d := &t.cols[i]
		if d.gen != nil {
			continue
		}
		if !given[i] {
			switch {
			case d.auto:
				t.autoN++
				v[i] = t.autoN
				continue
			case d.hasDef:
				x, err := e.eval(d.def, nil)
				if err != nil {
					return nil, err
				}
				v[i] = x
			case d.notNull:
				if !ignore {
					return nil, errf(1364, "Field '"+d.name+"' doesn't have a default value")
				}
			}
		}
		x, err := coerce(d, v[i], ignore)
		if err != nil {
			return nil, err
		}
		v[i] = x
	}
	rl := t.relOf()
	for i := range t.cols {
		d := &t.cols[i]
		if d.gen != nil {
			x, err := e.eval(d.gen, &scope{rel: rl, row: v})
			if err != nil {
				return nil, err
			}
			v[i] = x
		}
	}
	p, err := t.partOf(v, e)
	if err != nil {
		return nil, err
	}
	t.nextID++
	return &row{id: t.nextID, part: p, v: v}, nil
}

// put inserts a finished row with the given duplicate handling. It returns the affected count.
func (s *Session) put(t *table, r *row, replace, ignore bool, parts map[int]bool) (int64, error) {
	if parts != nil && !parts[r.part] {
		if ignore {
			return 0, nil
		}
		return 0, errf(1748, "Found a row not matching the given partition set")
	}
	conf := t.conflicts(r.v)
	if len(conf) > 0 {
		if ignore {
			return 0, nil
		}
		if !replace {
			return 0, &Error{1062, "23000", "Duplicate entry for key '" + t.name + ".PRIMARY'"}
		}
		for _, c := range conf {
			s.delRow(t, c)
		}
	}
	s.addRow(t, r)
	return 1 + int64(len(conf)), nil
}

func (s *Session) insert(st *insertStmt, e *env) (*Result, error) {
	t, err := s.table(st.table)
	if err != nil {
		return nil, err
	}
	parts, err := partSet(t, st.part)
	if err != nil {
		return nil, err
	}
	cols := make([]int, 0, len(t.cols))
	if st.cols == nil {
		for i := range t.cols {
			cols = append(cols, i)
		}
	}
	for _, c := range st.cols {
		i, ok := t.idx[strings.ToLower(c)]
		if !ok {
			return nil, &Error{1054, "42S22", "Unknown column '" + c + "' in 'field list'"}
		}
		cols = append(cols, i)
	}
	var src [][]Val
	var dflt [][]bool
	if st.sel != nil {
		r, err := e.child().selectRel(st.sel, nil)
		if err != nil {
			return nil, err
		}
		src = r.rows
	} else {
		for _, rw := range st.rows {
			if len(rw) != len(cols) {
				return nil, &Error{1136, "21S01", "Column count doesn't match value count"}
			}
			v := make([]Val, len(rw))
			d := make([]bool, len(rw))
			for i, x := range rw {
				if x == nil {
					d[i] = true
					continue
				}
				if v[i], err = e.eval(x, nil); err != nil {
					return nil, err
				}
			}
			src = append(src, v)
			dflt = append(dflt, d)
		}
	}
	res := &Result{}
	for k, w := range src {
		if len(w) != len(cols) {
			return nil, &Error{1136, "21S01", "Column count doesn't match value count"}
		}
		v := make([]Val, len(t.cols))
		given := make([]bool, len(t.cols))
		for i, c := range cols {
			if dflt != nil && dflt[k][i] {
				continue
			}
			if t.cols[c].gen != nil {
				return nil, errf(3105, "The value specified for generated column is not allowed.")
			}
			v[c], given[c] = w[i], true
		}
		r, err := s.finish(t, v, given, st.ignore, e)
		if err != nil {
			return nil, err
		}
		if st.onDup != nil {
			if conf := t.conflicts(r.v); len(conf) > 0 {
				old := conf[0]
				nv := append([]Val{}, old.v...)
				// The row to insert is known as VALUES(column) and by its alias.
				sc := &scope{rel: t.relOf(), row: nv, outer: &scope{rel: t.newRel(newRow), row: r.v}}
				if st.alias != "" {
					ar := t.newRel(st.alias)
					for i, n := range st.aliasCols {
						if len(st.aliasCols) != len(cols) {
							return nil, errf(1136, "Column count doesn't match value count")
						}
						ar.cols[cols[i]] = colRef{ar.cols[cols[i]].tbl, strings.ToLower(n), n}
					}
					sc.outer.outer = &scope{rel: ar, row: r.v}
				}
				for _, a := range st.onDup {
					i, ok := t.idx[strings.ToLower(a.col)]
					if !ok {
						return nil, &Error{1054, "42S22", "Unknown column '" + a.col + "'"}
					}
					x, err := e.eval(a.x, sc)
					if err != nil {
						return nil, err
					}
					if nv[i], err = coerce(&t.cols[i], x, st.ignore); err != nil {
						return nil, err
					}
				}
				g := make([]bool, len(t.cols))
				for i := range g {
					g[i] = true
				}
				nr, err := s.finish(t, nv, g, st.ignore, e)
				if err != nil {
					return nil, err
				}
				s.delRow(t, old)
				s.addRow(t, nr)
				res.Affected += 2
				continue
			}
		}
		n, err := s.put(t, r, st.replace, st.ignore, parts)
		if err != nil {
			return nil, err
		}
		res.Affected += n
	}
	return res, nil
}

// ReadFile is how the server process reads files for LOAD DATA INFILE.
var ReadFile = os.ReadFile

func (s *Session) load(st *loadStmt, e *env) (*Result, error) {
	if st.local {
		return nil, unsup("LOAD DATA LOCAL")
	}
	f, err := e.eval(st.file, nil)
	if err != nil {
		return nil, err
	}
	t, err := s.table(st.table)
	if err != nil {
		return nil, err
	}
	old := runtime.VerifSetNode(0)
	data, err := ReadFile(toStr(f))
	runtime.VerifSetNode(old)
	if err != nil {
		return nil, errf(29, "File '"+toStr(f)+"' not found (OS errno 2 - No such file or directory)")
	}
	recs := parseCSV(string(data), st)
	if st.skip < len(recs) {
		recs = recs[st.skip:]
	} else {
		recs = nil
	}
	targets := st.targets
	if targets == nil {
		for _, c := range t.cols {
			targets = append(targets, c.name)
		}
	}
	res := &Result{}
	for _, rec := range recs {
		v := make([]Val, len(t.cols))
		given := make([]bool, len(t.cols))
		for i, tg := range targets {
			var x Val
			if i < len(rec) {
				x = rec[i]
			}
			if strings.HasPrefix(tg, "@") {
				s.vars[tg[1:]] = x
				continue
			}
			c, ok := t.idx[strings.ToLower(tg)]
			if !ok {
				return nil, &Error{1054, "42S22", "Unknown column '" + tg + "' in 'field list'"}
			}
			v[c], given[c] = x, true
		}
		sc := &scope{rel: t.relOf(), row: v}
		for _, a := range st.set {
			c, ok := t.idx[strings.ToLower(a.col)]
			if !ok {
				return nil, &Error{1054, "42S22", "Unknown column '" + a.col + "' in 'field list'"}
			}
			x, err := e.eval(a.x, sc)
			if err != nil {
				return nil, err
			}
			v[c], given[c] = x, true
		}
		r, err := s.finish(t, v, given, st.ignore, e)
		if err != nil {
			return nil, err
		}
		n, err := s.put(t, r, st.replace, st.ignore, nil)
		if err != nil {
			return nil, err
		}
		res.Affected += n
	}
	return res, nil
}

func parseCSV(d string, st *loadStmt) [][]Val {
	var recs [][]Val
	i := 0
	for i < len(d) {
		var rec []Val
		for {
			var b strings.Builder
			enclosed := false
			null := false
			if st.fenc != "" && strings.HasPrefix(d[i:], st.fenc) {
				enclosed = true
				i += len(st.fenc)
			}
			for i < len(d) {
				if st.fesc != "" && d[i] == st.fesc[0] && i+1 < len(d) {
					if d[i+1] == 'N' && !enclosed && b.Len() == 0 {
						null = true
					} else {
						b.WriteByte(unescape(d[i+1]))
					}
					i += 2
					continue
				}
				if enclosed {
					if strings.HasPrefix(d[i:], st.fenc) {
						rest := d[i+len(st.fenc):]
						if strings.HasPrefix(rest, st.fenc) {
							b.WriteString(st.fenc)
							i += 2 * len(st.fenc)
							continue
						}
						if rest == "" || strings.HasPrefix(rest, st.fterm) || strings.HasPrefix(rest, st.lterm) {
							i += len(st.fenc)
							break
						}
					}
				} else if strings.HasPrefix(d[i:], st.fterm) || strings.HasPrefix(d[i:], st.lterm) {
					break
				}
				b.WriteByte(d[i])
				i++
			}
			if null {
				rec = append(rec, nil)
			} else {
				rec = append(rec, b.String())
			}
			if strings.HasPrefix(d[i:], st.fterm) && i < len(d) {
				i += len(st.fterm)
				continue
			}
			if strings.HasPrefix(d[i:], st.lterm) && i < len(d) {
				i += len(st.lterm)
			}
			break
		}
		recs = append(recs, rec)
	}
	return recs
}

func tableOrder(t *tableRef, out *[]*tableRef) {
	if t.join != nil {
		tableOrder(t.join.l, out)
		tableOrder(t.join.r, out)
		return
	}
	*out = append(*out, t)
}

func (s *Session) delete(st *deleteStmt, e *env) (*Result, error) {
	var tabs []*tableRef
	tableOrder(st.from, &tabs)
	ti := -1
	for i, t := range tabs {
		if strings.EqualFold(t.alias, st.table) || t.sub == nil && strings.EqualFold(t.name, st.table) {
			ti = i
			break
		}
	}
	if ti < 0 || tabs[ti].sub != nil {
		return nil, errf(1109, "Unknown table '"+st.table+"' in MULTI DELETE")
	}
	tb, err := s.table(tabs[ti].name)
	if err != nil {
		return nil, err
	}
	in, err := e.fromRel(st.from, nil, true, nil)
	if err != nil {
		return nil, err
	}
	type hit struct {
		r *row
		k []Val
	}
	var hits []hit
	seen := map[*row]bool{}
	for i, r := range in.rows {
		sc := &scope{rel: in, row: r}
		if st.where != nil {
			v, err := e.eval(st.where, sc)
			if err != nil {
				return nil, err
			}
			if !truth(v) {
				continue
			}
		}
		x := in.src[i][ti]
		if x == nil || seen[x] {
			continue
		}
		seen[x] = true
		h := hit{r: x}
		for _, o := range st.order {
			v, err := e.eval(o.x, sc)
			if err != nil {
				return nil, err
			}
			h.k = append(h.k, v)
		}
		hits = append(hits, h)
	}
	if st.order != nil {
		sort.SliceStable(hits, func(a, b int) bool {
			for k, o := range st.order {
				if c := cmpVal(hits[a].k[k], hits[b].k[k]); c != 0 {
					return (c < 0) != o.desc
				}
			}
			return false
		})
	}
	if st.limit != nil {
		v, err := e.eval(st.limit, nil)
		if err != nil {
			return nil, err
		}
		if n := int(toInt(v)); n < len(hits) {
			hits = hits[:n]
		}
	}
	for _, h := range hits {
		s.delRow(tb, h.r)
	}
	return &Result{Affected: int64(len(hits))}, nil
}

func (s *Session) update(st *updateStmt, e *env) (*Result, error) {
	var tabs []*tableRef
	tableOrder(st.from, &tabs)
	if st.order != nil || st.limit != nil {
		return nil, unsup("UPDATE ORDER BY/LIMIT")
	}
	in, err := e.fromRel(st.from, nil, true, nil)
	if err != nil {
		return nil, err
	}
	ti := -1
	for _, a := range st.set {
		k := -1
		for i, t := range tabs {
			if t.sub != nil {
				continue
			}
			tb, err := s.table(t.name)
			if err != nil {
				return nil, err
			}
			if _, ok := tb.idx[strings.ToLower(a.col)]; ok && (a.tbl == "" || strings.EqualFold(a.tbl, t.alias)) {
				k = i
				break
			}
		}
		if k < 0 {
			return nil, &Error{1054, "42S22", "Unknown column '" + a.col + "'"}
		}
		if ti >= 0 && ti != k {
			return nil, unsup("multi-table UPDATE")
		}
		ti = k
	}
	tb, err := s.table(tabs[ti].name)
	if err != nil {
		return nil, err
	}
	given := make([]bool, len(tb.cols))
	for i := range given {
		given[i] = true
	}
	seen := map[*row]bool{}
	res := &Result{}
	for i, r := range in.rows {
		x := in.src[i][ti]
		if x == nil || seen[x] {
			continue
		}
		sc := &scope{rel: in, row: r}
		if st.where != nil {
			v, err := e.eval(st.where, sc)
			if err != nil {
				return nil, err
			}
			if !truth(v) {
				continue
			}
		}
		seen[x] = true
		nv := append([]Val{}, x.v...)
		for _, a := range st.set {
			v, err := e.eval(a.x, sc)
			if err != nil {
				return nil, err
			}
			nv[tb.idx[strings.ToLower(a.col)]] = v
		}
		nr, err := s.finish(tb, nv, given, false, e)
		if err != nil {
			return nil, err
		}
		if rowKey(nr.v) == rowKey(x.v) {
			continue
		}
		s.delRow(tb, x)
		if conf := tb.conflicts(nr.v); len(conf) > 0 {
			return nil, &Error{1062, "23000", "Duplicate entry"}
		}
		s.addRow(tb, nr)
		res.Affected++
	}
	return res, nil
}

// ---- harness access

// LoadSchema executes the mysql-client scripts embedded in a create_schema shell script.
func (db *DB) LoadSchema(sh string) error {
	s := db.NewSession()
	for {
		i := strings.Index(sh, "<<EOF\n")
		if i < 0 {
			return nil
		}
		sh = sh[i+6:]
		j := strings.Index(sh, "\nEOF\n")
		if j < 0 {
			return unsup("schema script")
		}
		body := strings.ReplaceAll(sh[:j], "$DBNAME", "fpki")
		sh = sh[j+5:]
		if err := s.clientScript(body); err != nil {
			return err
		}
	}
}

// clientScript splits text the way the mysql command line client does.
func (s *Session) clientScript(text string) error {
	delim := ";"
	var buf strings.Builder
	for _, line := range strings.Split(text, "\n") {
		tr := strings.TrimSpace(line)
		if strings.HasPrefix(strings.ToUpper(tr), "DELIMITER ") {
			delim = strings.TrimSpace(tr[10:])
			continue
		}
		// strip comments outside strings only when the line is a comment
		if strings.HasPrefix(tr, "-- ") || tr == "--" {
			continue
		}
		if i := strings.Index(line, " -- "); i >= 0 && delim == ";" {
			line = line[:i]
			tr = strings.TrimSpace(line)
		}
		if strings.HasSuffix(tr, delim) {
			buf.WriteString(strings.TrimSuffix(strings.TrimRight(line, " \t"), delim))
			q := buf.String()
			buf.Reset()
			if strings.TrimSpace(q) == "" {
				continue
			}
			stmts, _, err := parseScript(q)
			if err != nil {
				return err
			}
			for _, st := range stmts {
				if _, err := s.run(st, &env{s: s}); err != nil {
					return err
				}
			}
			continue
		}
		buf.WriteString(line)
		buf.WriteByte('\n')
	}
	return nil
}

// Dump returns the rows of a table as maps of column to value, in storage order.
func (db *DB) Dump(name string) []map[string]Val {
	t := db.tables[name]
	if t == nil {
		return nil
	}
	var out []map[string]Val
	for _, r := range t.scan() {
		m := map[string]Val{}
		for i, c := range t.cols {
			m[strings.ToLower(c.name)] = r.v[i]
		}
		out = append(out, m)
	}
	return out
}

// Hash folds the logical contents of all tables into one number.
func (db *DB) Hash() uint64 {
	names := make([]string, 0, len(db.tables))
	for n := range db.tables {
		names = append(names, n)
	}
	sort.Strings(names)
	h := uint64(14695981039346656037)
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
	}
	for _, n := range names {
		mix(n)
		t := db.tables[n]
		for _, r := range t.scan() {
			for i, c := range t.cols {
				if !c.auto {
					mix(rowKey(r.v[i : i+1]))
				}
			}
		}
	}
	return h
}

// Count returns the number of rows of a table.
func (db *DB) Count(name string) int {
	if t := db.tables[name]; t != nil {
		return len(t.rows)
	}
	return -1
}

func itoa(n int) string { return strconv.Itoa(n) }

// Params returns the number of placeholders of a statement.
func (db *DB) Params(sql string) (int, error) {
	p, err := db.parse(sql)
	if err != nil {
		if u, ok := err.(*Unsupported); ok && db.Unsupported == "" {
			db.Unsupported = u.Msg
		}
		return 0, err
	}
	return p.nparam, nil
}

// IsDatetime tells whether a result column of that name holds DATETIME values.
func (db *DB) IsDatetime(col string) bool {
	c := strings.ToLower(col)
	if i := strings.LastIndexByte(c, '.'); i >= 0 {
		c = c[i+1:]
	}
	if v, ok := db.dtCols[c]; ok {
		return v
	}
	if db.dtCols == nil {
		db.dtCols = map[string]bool{}
	}
	r := false
	for _, t := range db.tables {
		if i, ok := t.idx[c]; ok && strings.HasPrefix(strings.ToUpper(t.cols[i].typ), "DATETIME") {
			r = true
		}
	}
	db.dtCols[c] = r
	return r
}
