// Package simdb is the simulated MySQL server: a small SQL engine that executes the statements and
// stored procedures of the code under test from their text, behind the MySQL wire protocol.
package simdb

import (
	"encoding/hex"
	"fmt"
	"strings"
)

type tokKind uint8

const (
	tEOF tokKind = iota
	tIdent
	tNum
	tStr
	tOp
	tParam
	tUserVar
	tSysVar
)

type tok struct {
	k   tokKind
	s   string // identifiers keep their case; up holds the upper-case form
	up  string
	pos int
	end int
}

// Unsupported is returned for SQL outside the engine's subset: the run is inconclusive.
type Unsupported struct{ Msg string }

func (u *Unsupported) Error() string { return "simdb: unsupported: " + u.Msg }

func unsup(f string, a ...any) error { return &Unsupported{fmt.Sprintf(f, a...)} }

func isIdStart(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func isIdChar(c byte) bool { return isIdStart(c) || c >= '0' && c <= '9' }

func lex(src string) ([]tok, error) {
	var ts []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '#', c == '-' && strings.HasPrefix(src[i:], "--") && (i+2 == len(src) || src[i+2] <= ' '):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			e := strings.Index(src[i+2:], "*/")
			if e < 0 {
				return nil, unsup("unterminated comment")
			}
			i += e + 4
		case c == '\'' || c == '"':
			s, n, err := lexString(src[i:])
			if err != nil {
				return nil, err
			}
			ts = append(ts, tok{k: tStr, s: s, pos: i, end: i + n})
			i += n
		case c == '`':
			e := strings.IndexByte(src[i+1:], '`')
			if e < 0 {
				return nil, unsup("unterminated identifier")
			}
			ts = append(ts, tok{k: tIdent, s: src[i+1 : i+1+e], up: "`", pos: i, end: i + e + 2})
			i += e + 2
		case c >= '0' && c <= '9':
			j := i
			if c == '0' && i+1 < len(src) && src[i+1] == 'x' {
				j = i + 2
				for j < len(src) && strings.IndexByte("0123456789abcdefABCDEF", src[j]) >= 0 {
					j++
				}
				b := make([]byte, 0, (j-i)/2)
				h := src[i+2 : j]
				if len(h)%2 == 1 {
					h = "0" + h
				}
				for k := 0; k+1 < len(h); k += 2 {
					var v byte
					fmt.Sscanf(h[k:k+2], "%02x", &v)
					b = append(b, v)
				}
				ts = append(ts, tok{k: tStr, s: string(b), pos: i, end: j})
				i = j
				continue
			}
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			ts = append(ts, tok{k: tNum, s: src[i:j], pos: i, end: j})
			i = j
		case c == '?':
			ts = append(ts, tok{k: tParam, s: "?", pos: i, end: i + 1})
			i++
		case c == '@':
			j := i + 1
			k := tUserVar
			if j < len(src) && src[j] == '@' {
				j++
				k = tSysVar
			}
			st := j
			for j < len(src) && (isIdChar(src[j]) || src[j] == '.') {
				j++
			}
			ts = append(ts, tok{k: k, s: strings.ToLower(src[st:j]), pos: i, end: j})
			i = j
		case isIdStart(c):
			j := i
			for j < len(src) && isIdChar(src[j]) {
				j++
			}
			w := src[i:j]
			// charset introducer of a string literal
			if (w == "_binary" || w == "_utf8mb4" || w == "_ascii") && j < len(src) && src[j] == '\'' {
				i = j
				continue
			}
			if (w == "x" || w == "X") && j < len(src) && src[j] == '\'' {
				if e := strings.IndexByte(src[j+1:], '\''); e >= 0 && e%2 == 0 {
					if b, err := hex.DecodeString(src[j+1 : j+1+e]); err == nil {
						ts = append(ts, tok{k: tStr, s: string(b), pos: i, end: j + e + 2})
						i = j + e + 2
						continue
					}
				}
			}
			ts = append(ts, tok{k: tIdent, s: w, up: strings.ToUpper(w), pos: i, end: j})
			i = j
		default:
			op := string(c)
			for _, o := range []string{"<=>", "<<", ">>", "<=", ">=", "<>", "!=", ":=", "||", "&&"} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			ts = append(ts, tok{k: tOp, s: op, up: op, pos: i, end: i + len(op)})
			i += len(op)
		}
	}
	ts = append(ts, tok{k: tEOF, pos: len(src), end: len(src)})
	return ts, nil
}

func lexString(src string) (string, int, error) {
	q := src[0]
	var b strings.Builder
	i := 1
	for i < len(src) {
		c := src[i]
		if c == q {
			if i+1 < len(src) && src[i+1] == q {
				b.WriteByte(q)
				i += 2
				continue
			}
			return b.String(), i + 1, nil
		}
		if c == '\\' && i+1 < len(src) {
			b.WriteByte(unescape(src[i+1]))
			i += 2
			continue
		}
		b.WriteByte(c)
		i++
	}
	return "", 0, unsup("unterminated string")
}

func unescape(c byte) byte {
	switch c {
	case '0':
		return 0
	case 'n':
		return '\n'
	case 'r':
		return '\r'
	case 't':
		return '\t'
	case 'b':
		return '\b'
	case 'Z':
		return 26
	}
	return c
}
