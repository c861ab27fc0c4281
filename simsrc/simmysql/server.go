// Package simmysql serves a simdb.DB over the MySQL wire protocol on the simulated network.
package simmysql

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/verifsim/kit"
	"github.com/netsec-ethz/fpki/verifsim/simdb"
	"github.com/netsec-ethz/fpki/verifsim/simnet"
)

// Server is the simulated database host.
type Server struct {
	K    *kit.Kit
	DB   *simdb.DB
	Net  *simnet.Net
	Site string // fault site prefix

	// KillClients allows faults that crash the node issuing the statement.
	KillClients bool
	// Faultable says whether a statement text may be hit by faults (nil: every statement).
	Faultable func(sql string) bool
	Focus     string                // table with sites of its own
	NoSlow    bool                  // no delays as faults
	Idle      func(sql string) bool // the statement has nothing to do: it is not worth a focused fault
	// Observe is called after each executed statement with its effect.
	Observe func(node uint32, sql string, err error)
	// Stall may delay a statement before it is executed.
	Stall func(node uint32, sql string) time.Duration
	// LatMin, LatMax bound the execution time of a statement.
	LatMin, LatMax time.Duration

	Conns, Stmts, ErrorsSent int
	rng                      *kit.Rng
	inner                    *session
}

// New creates a server.
func New(k *kit.Kit, db *simdb.DB, n *simnet.Net) *Server {
	s := &Server{K: k, DB: db, Net: n, Site: "db", LatMin: 20 * time.Microsecond, LatMax: 2 * time.Millisecond, rng: k.Rand("mysql")}
	db.Inner = s.innerHook
	return s
}

// Serve listens on the address until the run ends.
func (s *Server) Serve(addr string) {
	l := s.Net.Listen(addr)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.Conns++
			go s.conn(c)
		}
	}()
}

type session struct {
	s     *Server
	c     net.Conn
	sess  *simdb.Session
	seq   byte
	rd    []byte
	stmts map[uint32]*stmt
	nid   uint32
	node  uint32
	depf  bool // CLIENT_DEPRECATE_EOF
	cur   *kit.Fault
}

type stmt struct {
	sql    string
	nparam int
	types  []byte
}

var errAbort = errors.New("connection aborted by the simulator")

func (x *session) readPacket() ([]byte, error) {
	var out []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(x.c, h[:]); err != nil {
			return nil, err
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		x.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(x.c, b); err != nil {
			return nil, err
		}
		if out == nil {
			out = b
		} else {
			out = append(out, b...)
		}
		if n < 1<<24-1 {
			return out, nil
		}
	}
}

type wbuf struct {
	x *session
	b []byte
}

func (w *wbuf) packet(p []byte) {
	for {
		n := len(p)
		if n > 1<<24-1 {
			n = 1<<24 - 1
		}
		w.b = append(w.b, byte(n), byte(n>>8), byte(n>>16), w.x.seq)
		w.x.seq++
		w.b = append(w.b, p[:n]...)
		p = p[n:]
		if n < 1<<24-1 {
			return
		}
	}
}

func (w *wbuf) flush() error {
	_, err := w.x.c.Write(w.b)
	w.b = w.b[:0]
	return err
}

func lenenc(b []byte, n uint64) []byte {
	switch {
	case n < 251:
		return append(b, byte(n))
	case n < 1<<16:
		return append(b, 0xfc, byte(n), byte(n>>8))
	case n < 1<<24:
		return append(b, 0xfd, byte(n), byte(n>>8), byte(n>>16))
	}
	b = append(b, 0xfe)
	return binary.LittleEndian.AppendUint64(b, n)
}

func lestr(b []byte, s string) []byte { return append(lenenc(b, uint64(len(s))), s...) }

const caps = 0x00000001 | 0x2 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x20000 | 0x40000 | 0x80000 | 0x200000 | 0x1000000 | 0x100000

func (s *Server) conn(c net.Conn) {
	x := &session{s: s, c: c, sess: s.DB.NewSession(), stmts: map[uint32]*stmt{}, node: simnet.PeerNode(c)}
	defer func() {
		x.sess.Close()
		c.Close()
	}()
	w := &wbuf{x: x}
	var g []byte
	g = append(g, 10)
	g = append(g, "8.0.46\x00"...)
	g = binary.LittleEndian.AppendUint32(g, x.sess.ID)
	g = append(g, "abcdefgh\x00"...)
	g = append(g, byte(caps&0xff), byte(caps>>8&0xff), 63, 2, 0, byte(caps>>16&0xff), byte(caps>>24&0xff), 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, "ijklmnopqrst\x00"...)
	g = append(g, "mysql_native_password\x00"...)
	w.packet(g)
	if w.flush() != nil {
		return
	}
	h, err := x.readPacket()
	if err != nil || len(h) < 4 {
		return
	}
	x.depf = binary.LittleEndian.Uint32(h)&0x1000000 != 0
	w.packet(x.ok(0, 0))
	if w.flush() != nil {
		return
	}
	for {
		p, err := x.readPacket()
		if err != nil || len(p) == 0 {
			return
		}
		if err := x.command(w, p); err != nil {
			return
		}
	}
}

func (x *session) ok(affected, id int64) []byte {
	b := []byte{0}
	b = lenenc(b, uint64(affected))
	b = lenenc(b, uint64(id))
	return append(b, 2, 0, 0, 0)
}

func (x *session) eof() []byte {
	if x.depf {
		return []byte{0xfe, 0, 0, 2, 0, 0, 0}
	}
	return []byte{0xfe, 0, 0, 2, 0}
}

func (x *session) errp(err error) []byte {
	code, state, msg := uint16(1105), "HY000", err.Error()
	if e, ok := err.(*simdb.Error); ok {
		code, state, msg = e.Code, e.State, e.Msg
	}
	b := []byte{0xff, byte(code), byte(code >> 8), '#'}
	b = append(b, (state + "HY000")[:5]...)
	return append(b, msg...)
}

func (x *session) command(w *wbuf, p []byte) error {
	switch p[0] {
	case 0x01: // quit
		return io.EOF
	case 0x0e, 0x02, 0x1f: // ping, init db, reset connection
		w.packet(x.ok(0, 0))
		return w.flush()
	case 0x03:
		return x.query(w, string(p[1:]), nil, false)
	case 0x16: // prepare
		sql := string(p[1:])
		n, err := x.s.DB.Params(sql)
		if err != nil {
			x.note(sql, err)
			w.packet(x.errp(err))
			return w.flush()
		}
		x.nid++
		x.stmts[x.nid] = &stmt{sql: sql, nparam: n}
		b := []byte{0}
		b = binary.LittleEndian.AppendUint32(b, x.nid)
		b = append(b, 0, 0, byte(n), byte(n>>8), 0, 0, 0)
		w.packet(b)
		for i := 0; i < n; i++ {
			w.packet(colDef("?", 0xfd))
		}
		if n > 0 && !x.depf {
			w.packet(x.eof())
		}
		return w.flush()
	case 0x17: // execute
		st := x.stmts[binary.LittleEndian.Uint32(p[1:])]
		if st == nil {
			w.packet(x.errp(&simdb.Error{Code: 1243, State: "HY000", Msg: "Unknown prepared statement handler"}))
			return w.flush()
		}
		params, err := st.bind(p[10:])
		if err != nil {
			x.s.DB.Unsupported = err.Error()
			w.packet(x.errp(err))
			return w.flush()
		}
		return x.query(w, st.sql, params, true)
	case 0x19: // close statement: no reply
		delete(x.stmts, binary.LittleEndian.Uint32(p[1:]))
		return nil
	}
	x.s.DB.Unsupported = fmt.Sprintf("mysql command %#x", p[0])
	w.packet(x.errp(&simdb.Error{Code: 1047, State: "08S01", Msg: "Unknown command"}))
	return w.flush()
}

func (st *stmt) bind(p []byte) ([]simdb.Val, error) {
	if st.nparam == 0 {
		return nil, nil
	}
	nb := (st.nparam + 7) / 8
	nulls := p[:nb]
	p = p[nb:]
	nw := p[0]
	p = p[1:]
	if nw == 1 {
		st.types = append([]byte(nil), p[:2*st.nparam]...)
		p = p[2*st.nparam:]
	}
	out := make([]simdb.Val, st.nparam)
	for i := range out {
		if nulls[i/8]>>(i%8)&1 != 0 {
			continue
		}
		switch st.types[2*i] {
		case 0x06:
		case 0x01:
			out[i] = int64(int8(p[0]))
			p = p[1:]
		case 0x08:
			out[i] = int64(binary.LittleEndian.Uint64(p))
			p = p[8:]
		case 0x05:
			out[i] = math.Float64frombits(binary.LittleEndian.Uint64(p))
			p = p[8:]
		case 0xfc, 0xfd, 0xfe, 0x0f:
			n, k := 0, 1
			switch p[0] {
			case 0xfc:
				n, k = int(binary.LittleEndian.Uint16(p[1:])), 3
			case 0xfd:
				n, k = int(p[1])|int(p[2])<<8|int(p[3])<<16, 4
			case 0xfe:
				n, k = int(binary.LittleEndian.Uint64(p[1:])), 9
			default:
				n = int(p[0])
			}
			out[i] = string(p[k : k+n])
			p = p[k+n:]
		default:
			return nil, fmt.Errorf("parameter type %#x", st.types[2*i])
		}
	}
	return out, nil
}

func colDef(name string, typ byte) []byte {
	var b []byte
	b = lestr(b, "def")
	b = lestr(b, "")
	b = lestr(b, "")
	b = lestr(b, "")
	b = lestr(b, name)
	b = lestr(b, name)
	b = append(b, 0x0c, 63, 0, 0xff, 0xff, 0, 0, typ, 0x80, 0, 0, 0, 0)
	return b
}

var transient = []simdb.Error{
	{Code: 1213, State: "40001", Msg: "Deadlock found when trying to get lock; try restarting transaction"},
	{Code: 1205, State: "HY000", Msg: "Lock wait timeout exceeded; try restarting transaction"},
	{Code: 1114, State: "HY000", Msg: "The table is full"},
	{Code: 1030, State: "HY000", Msg: "Got error 28 from storage engine"},
	{Code: 3024, State: "HY000", Msg: "Query execution was interrupted, maximum statement execution time exceeded"},
}

func short(sql string) string {
	sql = strings.Join(strings.Fields(sql), " ")
	q := []byte(sql)
	for i, b := range q {
		if b < 32 || b > 126 {
			q[i] = '.'
		}
	}
	if len(q) > 60 {
		return string(q[:60])
	}
	return string(q)
}

// IsWrite tells whether the statement can change durable state.
func IsWrite(sql string) bool {
	s := strings.TrimSpace(sql)
	if len(s) < 4 {
		return false
	}
	switch strings.ToUpper(s[:4]) {
	case "SELE", "SET ", "SHOW", "WITH":
		return false
	}
	return true
}

func (x *session) note(sql string, err error) {
	s := x.s
	if err != nil {
		s.ErrorsSent++
		s.K.Tracef("db error n%d %s -> %v", x.node, short(sql), err)
	}
	if s.Observe != nil {
		s.Observe(x.node, sql, err)
	}
}

func (s *Server) innerHook(sess *simdb.Session, text string) error {
	x := s.inner
	if x == nil || x.cur != nil || s.K.IsQuiet() {
		return nil
	}
	kinds := []kit.KindProb{{Kind: "error", Weight: 2, ArgMin: 0, ArgMax: int64(len(transient) - 1)}}
	f := s.K.Draw(s.Site+".inner", kinds...)
	if f == nil {
		return nil
	}
	x.cur = f
	e := transient[int(f.Arg)%len(transient)]
	s.K.Tracef("  inside a stored procedure, before: %s", short(text))
	return &e
}

// focused tells the statements about the table Focus from others.
func (s *Server) focused(sql string) string {
	if s.Focus == "" {
		return ""
	}
	for i := 0; ; {
		j := strings.Index(sql[i:], s.Focus)
		if j < 0 {
			return ""
		}
		i += j + len(s.Focus)
		if (i-len(s.Focus) == 0 || !wordByte(sql[i-len(s.Focus)-1])) && (i == len(sql) || !wordByte(sql[i])) {
			if s.Idle != nil && s.Idle(sql) {
				return ""
			}
			return ".focus"
		}
	}
}

func (s *Server) slow(weight int) kit.KindProb {
	if s.NoSlow {
		weight = 0
	}
	return kit.KindProb{Kind: "slow", Weight: weight, ArgMin: 1e6, ArgMax: 5e9, LogScale: true}
}

func wordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
}

func (x *session) query(w *wbuf, sql string, params []simdb.Val, bin bool) error {
	s := x.s
	s.Stmts++
	d := int64(s.LatMax - s.LatMin)
	if d > 0 {
		l := int64(s.LatMin) + int64(s.rng.U64()%uint64(d))
		if s.rng.Chance(7, 8) {
			l = int64(s.LatMin) + (l-int64(s.LatMin))/16
		}
		time.Sleep(time.Duration(l))
	}
	if s.Stall != nil {
		if d := s.Stall(x.node, sql); d > 0 {
			s.K.Tracef("  database stalls for %s: %s", d, short(sql))
			time.Sleep(d)
		}
	}
	x.cur = nil
	var f *kit.Fault
	if s.Faultable == nil || s.Faultable(sql) {
		var kinds []kit.KindProb
		if IsWrite(sql) {
			kinds = []kit.KindProb{{Kind: "error", Weight: 4, ArgMin: 0, ArgMax: int64(len(transient) - 1)}, {Kind: "lost-request", Weight: 2}, {Kind: "lost-reply", Weight: 2},
				s.slow(2)}
			if s.KillClients {
				kinds = append(kinds, kit.KindProb{Kind: "crash-before", Weight: 3}, kit.KindProb{Kind: "crash-after", Weight: 4})
			}
			f = s.K.Draw(s.Site+".write"+s.focused(sql), kinds...)
		} else {
			kinds = []kit.KindProb{{Kind: "error", Weight: 2, ArgMin: 0, ArgMax: int64(len(transient) - 1)}, {Kind: "lost-request", Weight: 1}, {Kind: "row-error", Weight: 3, ArgMin: 0, ArgMax: 40, LogScale: true},
				{Kind: "row-reset", Weight: 1, ArgMin: 0, ArgMax: 40, LogScale: true}, s.slow(1)}
			f = s.K.Draw(s.Site+".read"+s.focused(sql), kinds...)
		}
	}
	if f != nil {
		s.K.Tracef("  on n%d: %s", x.node, short(sql))
		switch f.Kind {
		case "error":
			e := transient[int(f.Arg)%len(transient)]
			x.note(sql, &e)
			w.packet(x.errp(&e))
			return w.flush()
		case "lost-request":
			simnet.Abort(x.c)
			return errAbort
		case "slow":
			time.Sleep(time.Duration(f.Arg))
		case "crash-before":
			s.K.Kill(x.node)
			return errAbort
		}
	}
	if runtime.VerifDead(x.node) {
		return errAbort
	}
	s.inner = x
	res, err := x.sess.Exec(sql, params)
	s.inner = nil
	x.note(sql, err)
	if f != nil {
		switch f.Kind {
		case "lost-reply":
			simnet.Abort(x.c)
			return errAbort
		case "crash-after":
			s.K.Kill(x.node)
			return errAbort
		}
	}
	if err != nil {
		w.packet(x.errp(err))
		return w.flush()
	}
	if !res.IsSelect {
		w.packet(x.ok(res.Affected, res.InsertID))
		return w.flush()
	}
	cut := -1
	if f != nil && (f.Kind == "row-error" || f.Kind == "row-reset") {
		cut = int(f.Arg) % (len(res.Rows) + 1)
		s.K.Cover("db.midstream")
	}
	types := make([]byte, len(res.Cols))
	w.packet(lenenc(nil, uint64(len(res.Cols))))
	for i, c := range res.Cols {
		types[i] = s.typeOf(c, res.Rows, i)
		w.packet(colDef(c, types[i]))
	}
	if !x.depf {
		w.packet(x.eof())
	}
	for i, r := range res.Rows {
		if i == cut {
			break
		}
		if bin {
			w.packet(binRow(r, types))
		} else {
			w.packet(textRow(r))
		}
		if len(w.b) > 1<<20 {
			if err := w.flush(); err != nil {
				return err
			}
		}
	}
	if cut >= 0 {
		if f.Kind == "row-reset" {
			w.flush()
			simnet.Abort(x.c)
			return errAbort
		}
		e := transient[4]
		w.packet(x.errp(&e))
		return w.flush()
	}
	w.packet(x.eof())
	return w.flush()
}

func (s *Server) typeOf(col string, rows [][]simdb.Val, i int) byte {
	if s.DB.IsDatetime(col) {
		return 0x0c
	}
	for _, r := range rows {
		switch r[i].(type) {
		case int64:
			return 0x08
		case uint64:
			return 0x08
		case float64:
			return 0x05
		case string:
			return 0xfd
		}
	}
	return 0xfd
}

func textRow(r []simdb.Val) []byte {
	var b []byte
	for _, v := range r {
		switch v := v.(type) {
		case nil:
			b = append(b, 0xfb)
		case int64:
			b = lestr(b, strconv.FormatInt(v, 10))
		case uint64:
			b = lestr(b, strconv.FormatUint(v, 10))
		case float64:
			b = lestr(b, strconv.FormatFloat(v, 'g', -1, 64))
		case string:
			b = lestr(b, v)
		default:
			b = lestr(b, fmt.Sprint(v))
		}
	}
	return b
}

func binRow(r []simdb.Val, types []byte) []byte {
	b := make([]byte, 1+(len(r)+9)/8)
	for i, v := range r {
		if v == nil {
			b[1+(i+2)/8] |= 1 << ((i + 2) % 8)
			continue
		}
		switch types[i] {
		case 0x08:
			switch v := v.(type) {
			case int64:
				b = binary.LittleEndian.AppendUint64(b, uint64(v))
			case uint64:
				b = binary.LittleEndian.AppendUint64(b, v)
			default:
				n, _ := strconv.ParseInt(fmt.Sprint(v), 10, 64)
				b = binary.LittleEndian.AppendUint64(b, uint64(n))
			}
		case 0x05:
			f, _ := v.(float64)
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(f))
		case 0x0c:
			t, err := time.Parse(time.DateTime, fmt.Sprint(v))
			if err != nil {
				b = append(b, 0)
				continue
			}
			b = append(b, 7, byte(t.Year()), byte(t.Year()>>8), byte(t.Month()), byte(t.Day()), byte(t.Hour()), byte(t.Minute()), byte(t.Second()))
		default:
			switch v := v.(type) {
			case string:
				b = lestr(b, v)
			case int64:
				b = lestr(b, strconv.FormatInt(v, 10))
			default:
				b = lestr(b, fmt.Sprint(v))
			}
		}
	}
	return b
}
