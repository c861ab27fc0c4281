package simdb

// Val is nil, int64, float64 or string.
type Val = any

type expr interface{}

type (
	eLit   struct{ v Val }
	eParam struct{ n int }
	eCol   struct{ tbl, name string }
	eUser  struct{ name string }
	eSys   struct{ name string }
	eUn    struct {
		op string
		x  expr
	}
	eBin struct {
		op   string
		l, r expr
	}
	eIsNull struct {
		x   expr
		not bool
	}
	eIn struct {
		x    expr
		list []expr
		sub  *selectStmt
		not  bool
	}
	eBetween struct {
		x, lo, hi expr
		not       bool
	}
	eLike struct {
		x, pat expr
		not    bool
	}
	eExists struct{ sub *selectStmt }
	eSub    struct{ sub *selectStmt }
	eCase   struct {
		base  expr
		whens [][2]expr
		els   expr
	}
	eFunc struct {
		name     string
		args     []expr
		star     bool
		distinct bool
		order    []orderItem
		sep      *string
	}
	eStar struct{ tbl string }
)

type orderItem struct {
	x    expr
	desc bool
}

type selItem struct {
	x     expr
	alias string
	text  string
}

type cte struct {
	name string
	cols []string
	sel  *selectStmt
}

type tableRef struct {
	// exactly one of name, sub, join
	name  string
	part  []string // PARTITION(p..)
	sub   *selectStmt
	alias string
	join  *joinRef
}

type joinRef struct {
	l, r *tableRef
	kind string // INNER, LEFT, RIGHT, CROSS
	on   expr
}

// selectCore is one member of a UNION.
type selectCore struct {
	distinct bool
	items    []selItem
	from     *tableRef
	where    expr
	group    []expr
	having   expr
	// parenthesised member with its own order/limit
	nested *selectStmt
}

type selectStmt struct {
	recursive bool
	with      []cte
	cores     []*selectCore
	unionAll  []bool // len(cores)-1
	order     []orderItem
	limit     expr
	offset    expr
	into      []string // user variables, "@x", or procedure variables
	locking   bool
}

type (
	insertStmt struct {
		replace, ignore bool
		table           string
		part            []string
		cols            []string
		rows            [][]expr
		sel             *selectStmt
		alias           string   // of the row to insert
		aliasCols       []string // names of its columns, in the order of cols
		onDup           []assign
	}
	assign struct {
		tbl, col string
		user     bool
		sys      bool
		x        expr
	}
	loadStmt struct {
		file            expr
		replace, ignore bool
		local           bool
		table           string
		fterm, fenc     string
		fesc            string
		lterm           string
		skip            int
		targets         []string // column or @var
		set             []assign
	}
	deleteStmt struct {
		table string // target alias or table
		from  *tableRef
		where expr
		order []orderItem
		limit expr
		multi bool
	}
	updateStmt struct {
		from  *tableRef
		set   []assign
		where expr
		order []orderItem
		limit expr
	}
	truncateStmt struct{ table string }
	createTable  struct {
		name      string
		temp      bool
		ifNot     bool
		cols      []colDef
		pk        []string
		uniq      [][]string
		partBy    expr
		partCount int
	}
	dropTable struct {
		names    []string
		temp     bool
		ifExists bool
	}
	createProc struct{ p *proc }
	dropProc   struct{ name string }
	callStmt   struct {
		name string
		args []expr
	}
	setStmt     struct{ as []assign }
	prepareStmt struct {
		name string
		from expr
	}
	executeStmt struct {
		name  string
		using []expr
	}
	deallocStmt struct{ name string }
	txStmt      struct{ op string }
	nopStmt     struct{ what string }
	showStmt    struct{ what string }
	dbStmt      struct{ op, name string } // USE, CREATE DATABASE, DROP DATABASE
	// procedure bodies
	blockStmt struct {
		label string
		body  []any
	}
	ifStmt struct {
		conds []expr
		thens [][]any
		els   []any
	}
	leaveStmt   struct{ label string }
	iterateStmt struct{ label string }
	declareStmt struct {
		names []string
		def   expr
	}
	whileStmt struct {
		label string
		cond  expr
		body  []any
	}
	repeatStmt struct {
		label string
		body  []any
		until expr
	}
)

type colDef struct {
	name    string
	typ     string // upper-case base type
	size    int
	notNull bool
	def     expr
	hasDef  bool
	gen     expr
	auto    bool
}

type proc struct {
	name   string
	params []procParam
	body   any
}

type procParam struct {
	mode string
	name string
	typ  string
}
