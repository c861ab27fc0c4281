package simdb

import (
	"strconv"
	"strings"
)

type parser struct {
	src    string
	ts     []tok
	i      int
	nparam int
}

func (p *parser) t() tok { return p.ts[p.i] }
func (p *parser) is(kw ...string) bool {
	for k, w := range kw {
		if p.i+k >= len(p.ts) {
			return false
		}
		t := p.ts[p.i+k]
		if t.k != tIdent && t.k != tOp || t.up != w {
			return false
		}
	}
	return true
}
func (p *parser) acc(kw ...string) bool {
	if p.is(kw...) {
		p.i += len(kw)
		return true
	}
	return false
}
func (p *parser) near() string {
	t := p.t()
	e := t.pos + 40
	if e > len(p.src) {
		e = len(p.src)
	}
	return p.src[t.pos:e]
}

type parseErr struct{ err error }

func (p *parser) fail(f string, a ...any) {
	panic(parseErr{unsup(f+" near %q", append(a, p.near())...)})
}
func (p *parser) want(kw ...string) {
	if !p.acc(kw...) {
		p.fail("expected %s", strings.Join(kw, " "))
	}
}
func (p *parser) ident() string {
	t := p.t()
	if t.k != tIdent {
		p.fail("expected identifier")
	}
	p.i++
	return t.s
}

// parseScript parses a list of ';'-separated statements.
func parseScript(src string) (stmts []any, texts []string, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, nil, err
	}
	p := &parser{src: src, ts: ts}
	defer func() {
		if r := recover(); r != nil {
			pe, ok := r.(parseErr)
			if !ok {
				panic(r)
			}
			err = pe.err
		}
	}()
	for {
		for p.acc(";") {
		}
		if p.t().k == tEOF {
			return
		}
		st := p.t().pos
		s := p.stmt()
		if p.t().k != tEOF && !p.is(";") {
			p.fail("trailing input")
		}
		stmts = append(stmts, s)
		texts = append(texts, src[st:p.t().pos])
	}
}

func (p *parser) stmt() any {
	switch {
	case p.is("SELECT"), p.is("WITH"), p.is("("), p.is("VALUES"):
		return p.selectStmt()
	case p.is("INSERT"), p.is("REPLACE"):
		return p.insert()
	case p.is("LOAD"):
		return p.load()
	case p.is("DELETE"):
		return p.delete()
	case p.is("UPDATE"):
		return p.update()
	case p.acc("TRUNCATE"):
		p.acc("TABLE")
		return &truncateStmt{p.tableName()}
	case p.is("CREATE"):
		return p.create()
	case p.acc("DROP"):
		switch {
		case p.acc("DATABASE"), p.acc("SCHEMA"):
			p.acc("IF", "EXISTS")
			return &dbStmt{"DROP", p.ident()}
		case p.acc("PROCEDURE"):
			p.acc("IF", "EXISTS")
			return &dropProc{p.ident()}
		}
		d := &dropTable{}
		d.temp = p.acc("TEMPORARY")
		p.want("TABLE")
		d.ifExists = p.acc("IF", "EXISTS")
		for {
			d.names = append(d.names, p.tableName())
			if !p.acc(",") {
				break
			}
		}
		return d
	case p.acc("USE"):
		return &dbStmt{"USE", p.ident()}
	case p.acc("CALL"):
		c := &callStmt{name: p.ident()}
		if p.acc(".") {
			c.name = p.ident()
		}
		if p.acc("(") {
			for !p.acc(")") {
				c.args = append(c.args, p.expr())
				p.acc(",")
			}
		}
		return c
	case p.acc("SET"):
		return p.set()
	case p.acc("PREPARE"):
		n := p.ident()
		p.want("FROM")
		return &prepareStmt{strings.ToLower(n), p.expr()}
	case p.acc("EXECUTE"):
		e := &executeStmt{name: strings.ToLower(p.ident())}
		if p.acc("USING") {
			for {
				e.using = append(e.using, p.expr())
				if !p.acc(",") {
					break
				}
			}
		}
		return e
	case p.acc("DEALLOCATE", "PREPARE"), p.acc("DROP", "PREPARE"):
		return &deallocStmt{strings.ToLower(p.ident())}
	case p.acc("START", "TRANSACTION"), p.acc("BEGIN", "WORK"):
		for p.t().k == tIdent || p.is(",") {
			p.i++
		}
		return &txStmt{"BEGIN"}
	case p.is("BEGIN") && p.i+1 < len(p.ts) && (p.ts[p.i+1].k == tEOF || p.ts[p.i+1].s == ";") && p.i == 0:
		p.i++
		return &txStmt{"BEGIN"}
	case p.acc("COMMIT"):
		p.acc("WORK")
		return &txStmt{"COMMIT"}
	case p.acc("ROLLBACK"):
		p.acc("WORK")
		return &txStmt{"ROLLBACK"}
	case p.is("ALTER", "INSTANCE"), p.is("ANALYZE"), p.is("OPTIMIZE"), p.is("FLUSH"), p.is("KILL"):
		w := p.t().up
		for p.t().k != tEOF && !p.is(";") {
			p.i++
		}
		return &nopStmt{w}
	case p.acc("SHOW"):
		st := p.t().pos
		for p.t().k != tEOF && !p.is(";") {
			p.i++
		}
		return &showStmt{p.src[st:p.t().pos]}
	// procedure bodies
	case p.is("BEGIN"):
		return p.block("")
	case p.acc("IF"):
		return p.ifStmt()
	case p.acc("WHILE"):
		return p.while("")
	case p.acc("REPEAT"):
		return p.repeat("")
	case p.acc("LOOP"):
		return p.loop("")
	case p.acc("LEAVE"):
		return &leaveStmt{strings.ToLower(p.ident())}
	case p.acc("ITERATE"):
		return &iterateStmt{strings.ToLower(p.ident())}
	case p.acc("DECLARE"):
		d := &declareStmt{}
		for {
			d.names = append(d.names, strings.ToLower(p.ident()))
			if !p.acc(",") {
				break
			}
		}
		if d.names[0] == "exit" || d.names[0] == "continue" || p.is("CURSOR") {
			p.fail("handlers and cursors")
		}
		p.typ()
		if p.acc("DEFAULT") {
			d.def = p.expr()
		}
		return d
	}
	if t := p.t(); t.k == tIdent && p.ts[p.i+1].s == ":" {
		l := strings.ToLower(t.s)
		p.i += 2
		switch {
		case p.is("BEGIN"):
			return p.block(l)
		case p.acc("WHILE"):
			return p.while(l)
		case p.acc("REPEAT"):
			return p.repeat(l)
		case p.acc("LOOP"):
			return p.loop(l)
		}
	}
	p.fail("statement")
	return nil
}

func (p *parser) stmtsUntil(ends ...string) []any {
	var out []any
	for {
		for p.acc(";") {
		}
		for _, e := range ends {
			if p.is(e) {
				return out
			}
		}
		if p.t().k == tEOF {
			p.fail("unexpected end of block")
		}
		out = append(out, p.stmt())
		if !p.is(";") {
			p.fail("missing ;")
		}
	}
}

func (p *parser) block(label string) any {
	p.want("BEGIN")
	b := &blockStmt{label: label}
	b.body = p.stmtsUntil("END")
	p.want("END")
	if p.t().k == tIdent {
		p.i++
	}
	return b
}

func (p *parser) ifStmt() any {
	s := &ifStmt{}
	for {
		s.conds = append(s.conds, p.expr())
		p.want("THEN")
		s.thens = append(s.thens, p.stmtsUntil("ELSEIF", "ELSE", "END"))
		if p.acc("ELSEIF") {
			continue
		}
		break
	}
	if p.acc("ELSE") {
		s.els = p.stmtsUntil("END")
	}
	p.want("END", "IF")
	return s
}

func (p *parser) while(label string) any {
	w := &whileStmt{label: label, cond: p.expr()}
	p.want("DO")
	w.body = p.stmtsUntil("END")
	p.want("END", "WHILE")
	if p.t().k == tIdent {
		p.i++
	}
	return w
}

func (p *parser) loop(label string) any {
	w := &whileStmt{label: label, cond: eLit{int64(1)}}
	w.body = p.stmtsUntil("END")
	p.want("END", "LOOP")
	if p.t().k == tIdent {
		p.i++
	}
	return w
}

func (p *parser) repeat(label string) any {
	w := &repeatStmt{label: label}
	w.body = p.stmtsUntil("UNTIL")
	p.want("UNTIL")
	w.until = p.expr()
	p.want("END", "REPEAT")
	if p.t().k == tIdent {
		p.i++
	}
	return w
}

func (p *parser) set() any {
	s := &setStmt{}
	if p.is("NAMES") || p.is("TRANSACTION") || p.is("SESSION", "TRANSACTION") || p.is("GLOBAL") || p.is("CHARACTER") || p.is("PERSIST") {
		for p.t().k != tEOF && !p.is(";") {
			p.i++
		}
		return &nopStmt{"SET"}
	}
	for {
		p.acc("SESSION")
		p.acc("LOCAL")
		var a assign
		t := p.t()
		p.i++
		switch t.k {
		case tUserVar:
			a.user, a.col = true, t.s
		case tSysVar:
			a.sys, a.col = true, strings.TrimPrefix(t.s, "session.")
		case tIdent:
			a.col = strings.ToLower(t.s)
		default:
			p.fail("SET target")
		}
		if !p.acc("=") {
			p.want(":=")
		}
		if t.k != tUserVar && p.t().k == tIdent && (p.is("ON") || p.is("OFF") || p.is("DEFAULT")) {
			a.x = eLit{p.t().up}
			p.i++
		} else {
			a.x = p.expr()
		}
		s.as = append(s.as, a)
		if !p.acc(",") {
			return s
		}
	}
}

func (p *parser) tableName() string {
	n := p.ident()
	if p.acc(".") {
		q := n
		n = p.ident()
		if strings.EqualFold(q, "information_schema") {
			n = "information_schema." + strings.ToLower(n)
		}
	}
	return n
}

func (p *parser) partition() []string {
	if !p.is("PARTITION", "(") {
		return nil
	}
	p.i += 2
	var out []string
	for !p.acc(")") {
		out = append(out, strings.ToLower(p.ident()))
		p.acc(",")
	}
	return out
}

func (p *parser) insert() any {
	s := &insertStmt{}
	if p.acc("REPLACE") {
		s.replace = true
	} else {
		p.want("INSERT")
	}
	for p.acc("LOW_PRIORITY") || p.acc("DELAYED") || p.acc("HIGH_PRIORITY") {
	}
	if p.acc("IGNORE") {
		s.ignore = true
	}
	p.acc("INTO")
	s.table = p.tableName()
	s.part = p.partition()
	if p.is("(") && !(p.ts[p.i+1].up == "SELECT" || p.ts[p.i+1].up == "WITH") {
		p.i++
		s.cols = []string{}
		for !p.acc(")") {
			c := p.ident()
			if p.acc(".") {
				c = p.ident()
			}
			s.cols = append(s.cols, c)
			p.acc(",")
		}
	}
	if p.acc("VALUES") || p.acc("VALUE") {
		for {
			p.want("(")
			var row []expr
			for !p.acc(")") {
				if p.acc("DEFAULT") {
					row = append(row, nil)
				} else {
					row = append(row, p.expr())
				}
				p.acc(",")
			}
			s.rows = append(s.rows, row)
			if !p.acc(",") {
				break
			}
		}
	} else if p.acc("SET") {
		var row []expr
		for {
			s.cols = append(s.cols, p.ident())
			p.want("=")
			row = append(row, p.expr())
			if !p.acc(",") {
				break
			}
		}
		s.rows = [][]expr{row}
	} else {
		s.sel = p.selectStmt()
	}
	if p.acc("AS") {
		s.alias = p.ident()
		if p.acc("(") {
			for !p.acc(")") {
				s.aliasCols = append(s.aliasCols, p.ident())
				p.acc(",")
			}
		}
	}
	if p.acc("ON", "DUPLICATE", "KEY", "UPDATE") {
		s.onDup = p.assigns()
	}
	return s
}

func (p *parser) assigns() []assign {
	var out []assign
	for {
		var a assign
		a.col = p.ident()
		if p.acc(".") {
			a.tbl = a.col
			a.col = p.ident()
		}
		p.want("=")
		a.x = p.expr()
		out = append(out, a)
		if !p.acc(",") {
			return out
		}
	}
}

func (p *parser) load() any {
	p.want("LOAD", "DATA")
	s := &loadStmt{fterm: "\t", lterm: "\n", fesc: "\\"}
	for p.acc("LOW_PRIORITY") || p.acc("CONCURRENT") {
	}
	s.local = p.acc("LOCAL")
	p.want("INFILE")
	s.file = p.primary()
	if p.acc("REPLACE") {
		s.replace = true
	} else if p.acc("IGNORE") {
		s.ignore = true
	}
	p.want("INTO", "TABLE")
	s.table = p.tableName()
	if p.is("PARTITION") {
		p.fail("LOAD DATA PARTITION")
	}
	if p.acc("CHARACTER", "SET") {
		p.ident()
	}
	str := func() string {
		t := p.t()
		if t.k != tStr {
			p.fail("string")
		}
		p.i++
		return t.s
	}
	if p.acc("FIELDS") || p.acc("COLUMNS") {
		for {
			if p.acc("TERMINATED", "BY") {
				s.fterm = str()
			} else if p.acc("OPTIONALLY", "ENCLOSED", "BY") || p.acc("ENCLOSED", "BY") {
				s.fenc = str()
			} else if p.acc("ESCAPED", "BY") {
				s.fesc = str()
			} else {
				break
			}
		}
	}
	if p.acc("LINES") {
		for {
			if p.acc("TERMINATED", "BY") {
				s.lterm = str()
			} else {
				break
			}
		}
	}
	if p.acc("IGNORE") {
		n, _ := strconv.Atoi(p.t().s)
		s.skip = n
		p.i++
		if !p.acc("LINES") {
			p.want("ROWS")
		}
	}
	if p.acc("(") {
		for !p.acc(")") {
			t := p.t()
			p.i++
			if t.k == tUserVar {
				s.targets = append(s.targets, "@"+t.s)
			} else {
				s.targets = append(s.targets, t.s)
			}
			p.acc(",")
		}
	}
	if p.acc("SET") {
		s.set = p.assigns()
	}
	return s
}

func (p *parser) delete() any {
	p.want("DELETE")
	s := &deleteStmt{}
	if !p.acc("FROM") {
		s.multi = true
		s.table = p.ident()
		if p.acc(".") {
			p.want("*")
		}
		p.want("FROM")
		s.from = p.tableRefs()
	} else {
		st := p.i
		n := p.tableName()
		if p.acc("USING") {
			s.multi = true
			s.table = n
			s.from = p.tableRefs()
		} else {
			p.i = st
			s.from = p.tableFactor()
			s.table = s.from.alias
		}
	}
	if p.acc("WHERE") {
		s.where = p.expr()
	}
	s.order = p.orderBy()
	if p.acc("LIMIT") {
		s.limit = p.expr()
	}
	return s
}

func (p *parser) update() any {
	p.want("UPDATE")
	p.acc("IGNORE")
	s := &updateStmt{from: p.tableRefs()}
	p.want("SET")
	s.set = p.assigns()
	if p.acc("WHERE") {
		s.where = p.expr()
	}
	s.order = p.orderBy()
	if p.acc("LIMIT") {
		s.limit = p.expr()
	}
	return s
}

func (p *parser) create() any {
	p.want("CREATE")
	if p.acc("DATABASE") || p.acc("SCHEMA") {
		p.acc("IF", "NOT", "EXISTS")
		n := p.ident()
		for p.t().k != tEOF && !p.is(";") {
			p.i++
		}
		return &dbStmt{"CREATE", n}
	}
	if p.is("DEFINER") {
		for !p.is("PROCEDURE") {
			if p.t().k == tEOF {
				p.fail("DEFINER")
			}
			p.i++
		}
	}
	if p.acc("PROCEDURE") {
		pr := &proc{name: strings.ToLower(p.ident())}
		p.want("(")
		for !p.acc(")") {
			var pp procParam
			pp.mode = "IN"
			if p.is("IN") || p.is("OUT") || p.is("INOUT") {
				pp.mode = p.t().up
				p.i++
			}
			pp.name = strings.ToLower(p.ident())
			pp.typ, _ = p.typ()
			pr.params = append(pr.params, pp)
			p.acc(",")
		}
		for p.is("NOT") || p.is("DETERMINISTIC") || p.is("MODIFIES") || p.is("READS") || p.is("SQL") || p.is("DATA") || p.is("SECURITY") || p.is("INVOKER") || p.is("DEFINER") || p.is("CONTAINS") || p.is("LANGUAGE") {
			p.i++
		}
		pr.body = p.stmt()
		return &createProc{pr}
	}
	c := &createTable{}
	c.temp = p.acc("TEMPORARY")
	p.want("TABLE")
	c.ifNot = p.acc("IF", "NOT", "EXISTS")
	c.name = p.tableName()
	if p.is("LIKE") || p.is("AS") || p.is("SELECT") {
		p.fail("CREATE TABLE form")
	}
	p.want("(")
	for {
		switch {
		case p.acc("PRIMARY", "KEY"):
			if !p.is("(") {
				p.ident()
			}
			c.pk = p.colList()
		case p.is("UNIQUE"):
			p.i++
			if !p.acc("KEY") {
				p.acc("INDEX")
			}
			if !p.is("(") {
				p.ident()
			}
			c.uniq = append(c.uniq, p.colList())
		case p.is("INDEX"), p.is("KEY"):
			p.i++
			if !p.is("(") {
				p.ident()
			}
			p.colList()
		case p.is("CONSTRAINT"), p.is("CHECK"), p.is("FOREIGN"):
			p.fail("table constraint")
		default:
			p.colDef(c)
		}
		if p.acc(",") {
			continue
		}
		p.want(")")
		break
	}
	// table options
	for p.t().k != tEOF && !p.is(";") {
		if p.acc("PARTITION", "BY") {
			if !p.acc("HASH") {
				p.want("KEY")
				p.fail("PARTITION BY KEY")
			}
			p.want("(")
			c.partBy = p.expr()
			p.want(")")
			c.partCount = 1
			if p.acc("PARTITIONS") {
				c.partCount, _ = strconv.Atoi(p.t().s)
				p.i++
			}
			continue
		}
		if p.is("SELECT") || p.is("AS") {
			p.fail("CREATE TABLE ... SELECT")
		}
		p.i++
	}
	return c
}

func (p *parser) colList() []string {
	p.want("(")
	var out []string
	for !p.acc(")") {
		out = append(out, p.ident())
		if p.acc("(") {
			p.i++
			p.want(")")
		}
		if !p.acc("ASC") {
			p.acc("DESC")
		}
		p.acc(",")
	}
	return out
}

func (p *parser) typ() (string, int) {
	t := strings.ToUpper(p.ident())
	size := 0
	if p.acc("(") {
		size, _ = strconv.Atoi(p.t().s)
		for !p.acc(")") {
			p.i++
		}
	}
	for p.acc("UNSIGNED") || p.acc("ZEROFILL") || p.acc("SIGNED") {
	}
	return t, size
}

func (p *parser) colDef(c *createTable) {
	d := colDef{name: p.ident()}
	d.typ, d.size = p.typ()
	for {
		switch {
		case p.acc("NOT", "NULL"):
			d.notNull = true
		case p.acc("NULL"):
		case p.acc("DEFAULT"):
			d.hasDef = true
			d.def = p.primary()
		case p.acc("AUTO_INCREMENT"):
			d.auto = true
		case p.acc("PRIMARY", "KEY"):
			c.pk = []string{d.name}
		case p.acc("UNIQUE"):
			p.acc("KEY")
			c.uniq = append(c.uniq, []string{d.name})
		case p.acc("COLLATE"), p.acc("CHARSET"):
			p.i++
		case p.acc("CHARACTER", "SET"):
			p.i++
		case p.acc("COMMENT"):
			p.i++
		case p.acc("GENERATED", "ALWAYS", "AS"), p.acc("AS"):
			p.want("(")
			d.gen = p.expr()
			p.want(")")
		case p.acc("STORED"), p.acc("VIRTUAL"):
		case p.acc("CHECK"):
			p.want("(")
			p.expr()
			p.want(")")
		default:
			c.cols = append(c.cols, d)
			return
		}
	}
}

// ---- SELECT

func (p *parser) selectStmt() *selectStmt {
	s := &selectStmt{}
	if p.acc("WITH") {
		s.recursive = p.acc("RECURSIVE")
		for {
			var c cte
			c.name = p.ident()
			if p.is("(") {
				c.cols = p.colList()
			}
			p.want("AS")
			p.want("(")
			c.sel = p.selectStmt()
			p.want(")")
			s.with = append(s.with, c)
			if !p.acc(",") {
				break
			}
		}
	}
	s.cores = append(s.cores, p.core(s))
	for p.acc("UNION") {
		all := p.acc("ALL")
		if !all {
			p.acc("DISTINCT")
		}
		s.unionAll = append(s.unionAll, all)
		s.cores = append(s.cores, p.core(s))
	}
	if o := p.orderBy(); o != nil {
		s.order = o
	}
	if p.acc("LIMIT") {
		a := p.expr()
		if p.acc(",") {
			s.offset = a
			s.limit = p.expr()
		} else {
			s.limit = a
			if p.acc("OFFSET") {
				s.offset = p.expr()
			}
		}
	}
	if p.is("INTO") {
		p.into(s)
	}
	if p.acc("FOR", "UPDATE") || p.acc("FOR", "SHARE") || p.acc("LOCK", "IN", "SHARE", "MODE") {
		s.locking = true
		p.acc("SKIP", "LOCKED")
		p.acc("NOWAIT")
	}
	return s
}

func (p *parser) into(s *selectStmt) {
	p.want("INTO")
	for {
		t := p.t()
		p.i++
		if t.k == tUserVar {
			s.into = append(s.into, "@"+t.s)
		} else if t.k == tIdent && t.up != "OUTFILE" && t.up != "DUMPFILE" {
			s.into = append(s.into, strings.ToLower(t.s))
		} else {
			p.fail("INTO target")
		}
		if !p.acc(",") {
			return
		}
	}
}

func (p *parser) core(s *selectStmt) *selectCore {
	if p.acc("(") {
		c := &selectCore{nested: p.selectStmt()}
		p.want(")")
		return c
	}
	p.want("SELECT")
	c := &selectCore{}
	for p.acc("ALL") || p.acc("SQL_NO_CACHE") || p.acc("STRAIGHT_JOIN") {
	}
	if p.acc("DISTINCT") {
		c.distinct = true
	}
	for {
		var it selItem
		st := p.t().pos
		if p.acc("*") {
			it.x = eStar{}
		} else if p.t().k == tIdent && p.ts[p.i+1].s == "." && p.ts[p.i+2].s == "*" {
			it.x = eStar{p.t().s}
			p.i += 3
		} else {
			it.x = p.expr()
		}
		it.text = strings.TrimSpace(p.src[st:p.ts[p.i-1].end])
		if p.acc("AS") {
			t := p.t()
			if t.k != tIdent && t.k != tStr {
				p.fail("alias")
			}
			it.alias = t.s
			p.i++
		} else if t := p.t(); t.k == tIdent && !reserved[t.up] {
			it.alias = t.s
			p.i++
		}
		c.items = append(c.items, it)
		if !p.acc(",") {
			break
		}
	}
	if p.is("INTO") {
		p.into(s)
	}
	if p.acc("FROM") {
		if p.acc("DUAL") {
		} else {
			c.from = p.tableRefs()
		}
	}
	if p.acc("WHERE") {
		c.where = p.expr()
	}
	if p.acc("GROUP", "BY") {
		for {
			c.group = append(c.group, p.expr())
			if !p.acc(",") {
				break
			}
		}
		if p.is("WITH") {
			p.fail("ROLLUP")
		}
	}
	if p.acc("HAVING") {
		c.having = p.expr()
	}
	if p.is("WINDOW") {
		p.fail("WINDOW")
	}
	return c
}

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("FROM WHERE GROUP HAVING ORDER LIMIT UNION INNER LEFT RIGHT JOIN CROSS ON USING INTO AS SET FOR LOCK FORCE USE IGNORE PARTITION STRAIGHT_JOIN NATURAL WHEN THEN ELSE END AND OR NOT IN IS LIKE BETWEEN VALUES SELECT WINDOW DO ASC DESC INTERVAL PROCEDURE EXISTS") {
		reserved[w] = true
	}
}

func (p *parser) orderBy() []orderItem {
	if !p.acc("ORDER", "BY") {
		return nil
	}
	var out []orderItem
	for {
		o := orderItem{x: p.expr()}
		if p.acc("DESC") {
			o.desc = true
		} else {
			p.acc("ASC")
		}
		out = append(out, o)
		if !p.acc(",") {
			return out
		}
	}
}

func (p *parser) tableRefs() *tableRef {
	l := p.tableFactor()
	for {
		kind := ""
		switch {
		case p.acc("INNER", "JOIN"), p.acc("JOIN"), p.acc("STRAIGHT_JOIN"):
			kind = "INNER"
		case p.acc("CROSS", "JOIN"), p.acc(","):
			kind = "INNER"
		case p.acc("LEFT", "OUTER", "JOIN"), p.acc("LEFT", "JOIN"):
			kind = "LEFT"
		case p.acc("RIGHT", "OUTER", "JOIN"), p.acc("RIGHT", "JOIN"):
			kind = "RIGHT"
		default:
			return l
		}
		r := p.tableFactor()
		j := &joinRef{l: l, r: r, kind: kind}
		if p.acc("ON") {
			j.on = p.expr()
		} else if p.is("USING") {
			p.fail("USING")
		}
		l = &tableRef{join: j}
	}
}

func (p *parser) tableFactor() *tableRef {
	t := &tableRef{}
	if p.is("LATERAL") {
		p.fail("LATERAL")
	}
	if p.acc("(") {
		if p.is("SELECT") || p.is("WITH") || p.is("(") {
			t.sub = p.selectStmt()
			p.want(")")
		} else {
			t = p.tableRefs()
			p.want(")")
			return t
		}
	} else {
		t.name = p.tableName()
		t.part = p.partition()
		t.alias = t.name
	}
	if p.acc("AS") {
		t.alias = p.ident()
	} else if k := p.t(); k.k == tIdent && !reserved[k.up] {
		t.alias = k.s
		p.i++
	}
	for p.is("FORCE") || p.is("USE") || p.is("IGNORE") {
		if !(p.ts[p.i+1].up == "INDEX" || p.ts[p.i+1].up == "KEY") {
			break
		}
		p.i += 2
		if p.acc("FOR") {
			p.i++
			p.acc("BY")
		}
		p.colList()
	}
	return t
}

// ---- expressions, by precedence

func (p *parser) expr() expr { return p.or() }

func (p *parser) or() expr {
	l := p.xor()
	for p.acc("OR") || p.acc("||") {
		l = eBin{"OR", l, p.xor()}
	}
	return l
}
func (p *parser) xor() expr { return p.and() }
func (p *parser) and() expr {
	l := p.not()
	for p.acc("AND") || p.acc("&&") {
		l = eBin{"AND", l, p.not()}
	}
	return l
}
func (p *parser) not() expr {
	if p.acc("NOT") {
		return eUn{"NOT", p.not()}
	}
	return p.cmp()
}
func (p *parser) cmp() expr {
	l := p.bitor()
	for {
		switch {
		case p.is("="), p.is("<"), p.is(">"), p.is("<="), p.is(">="), p.is("<>"), p.is("!="), p.is("<=>"):
			op := p.t().s
			if op == "!=" {
				op = "<>"
			}
			p.i++
			l = eBin{op, l, p.bitor()}
		case p.acc("IS", "NOT", "NULL"):
			l = eIsNull{l, true}
		case p.acc("IS", "NULL"):
			l = eIsNull{l, false}
		case p.acc("IS", "NOT", "TRUE"):
			l = eUn{"NOT", eUn{"TRUTH", l}}
		case p.acc("IS", "TRUE"):
			l = eUn{"TRUTH", l}
		case p.acc("IS", "NOT", "FALSE"):
			l = eUn{"NOT", eUn{"FALSITY", l}}
		case p.acc("IS", "FALSE"):
			l = eUn{"FALSITY", l}
		case p.is("NOT", "IN"), p.is("IN"):
			not := p.acc("NOT")
			p.want("IN")
			p.want("(")
			e := eIn{x: l, not: not}
			if p.is("SELECT") || p.is("WITH") {
				e.sub = p.selectStmt()
				p.want(")")
			} else {
				for !p.acc(")") {
					e.list = append(e.list, p.expr())
					p.acc(",")
				}
			}
			l = &e
		case p.is("NOT", "BETWEEN"), p.is("BETWEEN"):
			not := p.acc("NOT")
			p.want("BETWEEN")
			lo := p.bitor()
			p.want("AND")
			l = eBetween{l, lo, p.bitor(), not}
		case p.is("NOT", "LIKE"), p.is("LIKE"):
			not := p.acc("NOT")
			p.want("LIKE")
			l = eLike{l, p.bitor(), not}
		default:
			return l
		}
	}
}
func (p *parser) bitor() expr {
	l := p.bitand()
	for p.acc("|") {
		l = eBin{"|", l, p.bitand()}
	}
	return l
}
func (p *parser) bitand() expr {
	l := p.shift()
	for p.acc("&") {
		l = eBin{"&", l, p.shift()}
	}
	return l
}
func (p *parser) shift() expr {
	l := p.add()
	for p.is("<<") || p.is(">>") {
		op := p.t().s
		p.i++
		l = eBin{op, l, p.add()}
	}
	return l
}
func (p *parser) add() expr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		op := p.t().s
		p.i++
		if p.is("INTERVAL") {
			p.fail("INTERVAL")
		}
		l = eBin{op, l, p.mul()}
	}
	return l
}
func (p *parser) mul() expr {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") || p.is("DIV") || p.is("MOD") {
		op := p.t().up
		if op == "MOD" {
			op = "%"
		}
		p.i++
		l = eBin{op, l, p.unary()}
	}
	return l
}
func (p *parser) unary() expr {
	switch {
	case p.acc("-"):
		return eUn{"-", p.unary()}
	case p.acc("+"):
		return p.unary()
	case p.acc("!"):
		return eUn{"NOT", p.unary()}
	case p.acc("BINARY"):
		return p.unary()
	}
	e := p.primary()
	if p.acc("COLLATE") {
		p.ident()
	}
	return e
}

func (p *parser) primary() expr {
	t := p.t()
	switch t.k {
	case tNum:
		p.i++
		if strings.Contains(t.s, ".") {
			f, _ := strconv.ParseFloat(t.s, 64)
			return eLit{f}
		}
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail("number")
		}
		return eLit{n}
	case tStr:
		p.i++
		s := t.s
		for p.t().k == tStr {
			s += p.t().s
			p.i++
		}
		return eLit{s}
	case tParam:
		p.i++
		p.nparam++
		return eParam{p.nparam - 1}
	case tUserVar:
		p.i++
		return eUser{t.s}
	case tSysVar:
		p.i++
		return eSys{t.s}
	}
	if p.acc("(") {
		if p.is("SELECT") || p.is("WITH") {
			s := p.selectStmt()
			p.want(")")
			return eSub{s}
		}
		e := p.expr()
		if p.is(",") {
			p.fail("row constructor")
		}
		p.want(")")
		return e
	}
	if t.k != tIdent {
		p.fail("expression")
	}
	switch {
	case p.acc("NULL"):
		return eLit{nil}
	case p.acc("TRUE"):
		return eLit{int64(1)}
	case p.acc("FALSE"):
		return eLit{int64(0)}
	case p.acc("EXISTS"):
		p.want("(")
		s := p.selectStmt()
		p.want(")")
		return eExists{s}
	case p.acc("CASE"):
		var c eCase
		if !p.is("WHEN") {
			c.base = p.expr()
		}
		for p.acc("WHEN") {
			w := p.expr()
			p.want("THEN")
			c.whens = append(c.whens, [2]expr{w, p.expr()})
		}
		if p.acc("ELSE") {
			c.els = p.expr()
		}
		p.want("END")
		return c
	case p.is("CAST", "("), p.is("CONVERT", "("):
		p.i += 2
		x := p.expr()
		if !p.acc("AS") {
			p.want(",")
		}
		ty := strings.ToUpper(p.ident())
		for !p.acc(")") {
			p.i++
		}
		return &eFunc{name: "CAST_" + ty, args: []expr{x}}
	}
	// function call?
	if p.ts[p.i+1].s == "(" && p.ts[p.i+1].k == tOp && t.up != "`" {
		p.i += 2
		f := &eFunc{name: t.up}
		if p.acc("*") {
			f.star = true
			p.want(")")
			return f
		}
		f.distinct = p.acc("DISTINCT")
		for !p.acc(")") {
			if p.is("ORDER", "BY") {
				f.order = p.orderBy()
				continue
			}
			if p.acc("SEPARATOR") {
				s := p.t().s
				f.sep = &s
				p.i++
				continue
			}
			f.args = append(f.args, p.expr())
			if !p.is(")") && !p.is("ORDER") && !p.is("SEPARATOR") {
				p.want(",")
			}
		}
		if p.is("OVER") {
			p.fail("window function")
		}
		return f
	}
	if t.up == "CURRENT_TIMESTAMP" || t.up == "UTC_TIMESTAMP" {
		p.i++
		return &eFunc{name: "NOW"}
	}
	if reserved[t.up] {
		p.fail("unexpected keyword")
	}
	p.i++
	if p.is(".") {
		p.i++
		n := p.ident()
		if p.is(".") { // db.tbl.col
			p.i++
			return eCol{n, p.ident()}
		}
		return eCol{t.s, n}
	}
	return eCol{"", t.s}
}
