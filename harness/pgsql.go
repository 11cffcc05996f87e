package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// A small executable model of PostgreSQL: the tables, the grammar and the three-valued logic a metadata store needs.
// A run with a statement it does not understand is not judged.

type pgCol struct {
	name, typ string
	size      int
	notNull   bool
	def       *pgX
	uniq      bool
	fk        *pgFK
}

type pgFK struct {
	cols        []string
	table       string
	refs        []string
	cascade     bool
	setNull     bool
	constraints string
}

type pgTable struct {
	name string
	cols []pgCol
	pk   []string
	uniq [][]string
	fks  []*pgFK
	rows [][]any // a row is never changed in place
}

type pgData struct {
	tables map[string]*pgTable
	ver    int
}

func (d *pgData) clone() *pgData {
	n := &pgData{tables: map[string]*pgTable{}, ver: d.ver}
	for k, t := range d.tables {
		c := *t
		c.rows = append([][]any{}, t.rows...)
		n.tables[k] = &c
	}
	return n
}

type pgJSON struct{ v any }

type pgErr struct{ code, msg string }

// pgUnsupported: the model does not know
type pgUnsupported struct{ msg string }

func pgFail(code, f string, a ...any) { panic(pgErr{code, fmt.Sprintf(f, a...)}) }
func pgNot(f string, a ...any)        { panic(pgUnsupported{fmt.Sprintf(f, a...)}) }

// ---------------------------------------------------------------- lexer

type pgTok struct {
	k byte // i identifier, q quoted identifier, n number, s string, p parameter, o operator, 0 the end
	s string
}

func pgLex(s string) []pgTok {
	var ts []pgTok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				pgFail("42601", "unterminated comment")
			}
			i += j + 2
		case c == '\'' || (c == 'e' || c == 'E') && i+1 < len(s) && s[i+1] == '\'':
			esc := c != '\''
			if esc {
				i++
			}
			i++
			var b []byte
			for {
				if i >= len(s) {
					pgFail("42601", "unterminated quoted string")
				}
				if s[i] == '\'' {
					if i+1 < len(s) && s[i+1] == '\'' {
						b = append(b, '\'')
						i += 2
						continue
					}
					i++
					break
				}
				if esc && s[i] == '\\' && i+1 < len(s) {
					switch s[i+1] {
					case 'n':
						b = append(b, '\n')
					case 't':
						b = append(b, '\t')
					case 'r':
						b = append(b, '\r')
					case '\\', '\'':
						b = append(b, s[i+1])
					default:
						pgNot("escape sequence in %q", s)
					}
					i += 2
					continue
				}
				b = append(b, s[i])
				i++
			}
			ts = append(ts, pgTok{'s', string(b)})
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				pgFail("42601", "unterminated quoted identifier")
			}
			ts = append(ts, pgTok{'q', s[i+1 : i+1+j]})
			i += j + 2
		case c == '$' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			ts = append(ts, pgTok{'p', s[i+1 : j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			ts = append(ts, pgTok{'n', s[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 0x80) {
				j++
			}
			ts = append(ts, pgTok{'i', strings.ToLower(s[i:j])})
			i = j
		default:
			op := ""
			for _, o := range []string{"->>", "<=", ">=", "<>", "!=", "->", "||", "::", "@>", "<@", "?|", "?&"} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if !strings.ContainsRune("=<>(),.;[]+-*/%?", rune(c)) {
					pgFail("42601", "syntax error at or near %q", string(c))
				}
				op = string(c)
			}
			ts = append(ts, pgTok{'o', op})
			i += len(op)
		}
	}
	return append(ts, pgTok{})
}

// ---------------------------------------------------------------- parser

// pgX is an expression
type pgX struct {
	op   string
	name string
	tab  string
	val  any
	args []*pgX
	sel  *pgStmt
	neg  bool
	typ  string
}

type pgItem struct {
	x    *pgX
	as   string
	star string // alias of the table or "*"
}

type pgFrom struct {
	table, as string
	kind      string // join, left, cross
	on        *pgX
}

type pgSet struct {
	cols []string
	vals []*pgX
}

type pgStmt struct {
	kind     string
	items    []pgItem
	distinct bool
	from     []pgFrom
	where    *pgX
	group    []*pgX
	order    []*pgX
	desc     []bool
	limit    *pgX
	offset   *pgX
	lock     string
	table    string
	as       string
	cols     []string
	values   [][]*pgX
	sel      *pgStmt
	conflict []string
	doWhat   string // "", nothing, update
	sets     []pgSet
	where2   *pgX
	ret      []pgItem
	hasRet   bool
	create   *pgTable
	ifNot    bool
	cascade  bool
	names    []string
}

type pgParser struct {
	ts   []pgTok
	i    int
	maxP int
}

func pgParse(s string) (sts []*pgStmt, maxP int) {
	p := &pgParser{ts: pgLex(s)}
	for {
		for p.isOp(";") {
			p.i++
		}
		if p.peek().k == 0 {
			return sts, p.maxP
		}
		sts = append(sts, p.stmt())
		if !p.isOp(";") && p.peek().k != 0 {
			p.syntax()
		}
	}
}

func (p *pgParser) peek() pgTok { return p.ts[p.i] }
func (p *pgParser) syntax() {
	t := p.peek()
	if t.k == 0 {
		pgFail("42601", "syntax error at end of input")
	}
	pgFail("42601", "syntax error at or near %q", t.s)
}
func (p *pgParser) isOp(s string) bool { t := p.peek(); return t.k == 'o' && t.s == s }
func (p *pgParser) isKw(ws ...string) bool {
	for j, w := range ws {
		if p.i+j >= len(p.ts) || p.ts[p.i+j].k != 'i' || p.ts[p.i+j].s != w {
			return false
		}
	}
	return true
}
func (p *pgParser) op(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *pgParser) kw(ws ...string) bool {
	if p.isKw(ws...) {
		p.i += len(ws)
		return true
	}
	return false
}
func (p *pgParser) needOp(s string) {
	if !p.op(s) {
		p.syntax()
	}
}
func (p *pgParser) needKw(ws ...string) {
	if !p.kw(ws...) {
		p.syntax()
	}
}

var pgReserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("select from where and or not in is null like order by group limit offset for on as insert update delete set values returning join left inner outer right cross having union distinct asc desc between case when then else end using true false limit exists") {
		pgReserved[w] = true
	}
	for _, w := range []string{"set", "values", "delete", "insert", "update", "by", "exists"} {
		delete(pgReserved, w)
	}
}

func (p *pgParser) isIdent() bool {
	t := p.peek()
	return t.k == 'q' || t.k == 'i' && !pgReserved[t.s]
}

func (p *pgParser) ident() string {
	if !p.isIdent() {
		p.syntax()
	}
	p.i++
	return p.ts[p.i-1].s
}

func (p *pgParser) table() string {
	n := p.ident()
	if p.op(".") {
		if n != "public" {
			pgFail("42P01", "relation does not exist: schema %s", n)
		}
		n = p.ident()
	}
	return n
}

func (p *pgParser) identList() []string {
	p.needOp("(")
	l := []string{p.ident()}
	for p.op(",") {
		l = append(l, p.ident())
	}
	p.needOp(")")
	return l
}

func (p *pgParser) stmt() *pgStmt {
	switch {
	case p.isKw("select"):
		return p.sel()
	case p.kw("insert", "into"):
		s := &pgStmt{kind: "insert", table: p.table()}
		s.as = s.table
		if p.kw("as") {
			s.as = p.ident()
		}
		if p.isOp("(") {
			s.cols = p.identList()
		}
		if p.kw("values") {
			for {
				p.needOp("(")
				var vs []*pgX
				for {
					if p.kw("default") {
						vs = append(vs, &pgX{op: "default"})
					} else {
						vs = append(vs, p.expr(0))
					}
					if !p.op(",") {
						break
					}
				}
				p.needOp(")")
				s.values = append(s.values, vs)
				if !p.op(",") {
					break
				}
			}
		} else if p.isKw("select") {
			s.sel = p.sel()
		} else {
			p.syntax()
		}
		if p.kw("on", "conflict") {
			if p.isOp("(") {
				s.conflict = p.identList()
			} else if p.isKw("on", "constraint") {
				pgNot("on constraint")
			}
			p.needKw("do")
			if p.kw("nothing") {
				s.doWhat = "nothing"
			} else {
				p.needKw("update", "set")
				s.doWhat = "update"
				if s.conflict == nil {
					p.syntax()
				}
				s.sets = p.sets()
				if p.kw("where") {
					s.where2 = p.expr(0)
				}
			}
		}
		p.returning(s)
		return s
	case p.kw("update"):
		s := &pgStmt{kind: "update", table: p.table()}
		s.as = s.table
		if p.kw("as") || p.isIdent() && !p.isKw("set") {
			s.as = p.ident()
		}
		p.needKw("set")
		s.sets = p.sets()
		if p.kw("from") {
			s.from = p.froms()
		}
		if p.kw("where") {
			s.where = p.expr(0)
		}
		p.returning(s)
		return s
	case p.kw("delete", "from"):
		s := &pgStmt{kind: "delete", table: p.table()}
		s.as = s.table
		if p.kw("as") || p.isIdent() {
			s.as = p.ident()
		}
		if p.kw("using") {
			s.from = p.froms()
		}
		if p.kw("where") {
			s.where = p.expr(0)
		}
		p.returning(s)
		return s
	case p.kw("create", "table"):
		return p.createTable()
	case p.isKw("create", "index"), p.isKw("create", "unique", "index"), p.isKw("drop", "index"), p.isKw("create", "extension"), p.isKw("set"), p.isKw("comment"):
		if p.isKw("create", "unique") {
			return p.uniqueIndex()
		}
		for p.peek().k != 0 && !p.isOp(";") {
			p.i++
		}
		return &pgStmt{kind: "nop"}
	case p.kw("drop", "table"):
		s := &pgStmt{kind: "drop"}
		s.ifNot = p.kw("if", "exists")
		for {
			s.names = append(s.names, p.table())
			if !p.op(",") {
				break
			}
		}
		s.cascade = p.kw("cascade")
		p.kw("restrict")
		return s
	case p.isKw("begin"), p.isKw("commit"), p.isKw("rollback"):
		s := &pgStmt{kind: p.peek().s}
		p.i++
		return s
	case p.isKw("with"), p.isKw("alter"), p.isKw("lock"), p.isKw("savepoint"), p.isKw("truncate"), p.isKw("do"), p.isKw("explain"):
		pgNot("the statement %s", p.peek().s)
	}
	p.syntax()
	return nil
}

func (p *pgParser) sets() []pgSet {
	var res []pgSet
	for {
		var s pgSet
		if p.isOp("(") {
			s.cols = p.identList()
			p.needOp("=")
			p.kw("row")
			p.needOp("(")
			if p.isKw("select") {
				pgNot("a subquery as a row")
			}
			for {
				s.vals = append(s.vals, p.expr(0))
				if !p.op(",") {
					break
				}
			}
			p.needOp(")")
			if len(s.vals) != len(s.cols) {
				pgFail("42601", "number of columns does not match number of values")
			}
		} else {
			s.cols = []string{p.ident()}
			p.needOp("=")
			if p.kw("default") {
				s.vals = []*pgX{{op: "default"}}
			} else {
				s.vals = []*pgX{p.expr(0)}
			}
		}
		res = append(res, s)
		if !p.op(",") {
			return res
		}
	}
}

func (p *pgParser) returning(s *pgStmt) {
	if p.kw("returning") {
		s.hasRet = true
		s.ret = p.items()
	}
}

func (p *pgParser) items() []pgItem {
	var res []pgItem
	for {
		var it pgItem
		if p.op("*") {
			it.star = "*"
		} else if p.isIdent() && p.i+2 < len(p.ts) && p.ts[p.i+1] == (pgTok{'o', "."}) && p.ts[p.i+2] == (pgTok{'o', "*"}) {
			it.star = p.ident()
			p.i += 2
		} else {
			it.x = p.expr(0)
			if p.kw("as") {
				it.as = p.ts[p.i].s
				p.i++
			} else if p.isIdent() {
				it.as = p.ident()
			}
		}
		res = append(res, it)
		if !p.op(",") {
			return res
		}
	}
}

func (p *pgParser) froms() []pgFrom {
	var res []pgFrom
	one := func(kind string) pgFrom {
		if p.isOp("(") {
			pgNot("a subquery in from")
		}
		f := pgFrom{table: p.table(), kind: kind}
		f.as = f.table
		if p.kw("as") || p.isIdent() && !p.isKw("set") && !p.isKw("values") {
			f.as = p.ident()
		}
		return f
	}
	res = append(res, one("cross"))
	for {
		switch {
		case p.op(","), p.kw("cross", "join"):
			res = append(res, one("cross"))
		case p.kw("join"), p.kw("inner", "join"):
			f := one("join")
			p.needKw("on")
			f.on = p.expr(0)
			res = append(res, f)
		case p.kw("left", "join"), p.kw("left", "outer", "join"):
			f := one("left")
			p.needKw("on")
			f.on = p.expr(0)
			res = append(res, f)
		case p.isKw("right"), p.isKw("full"), p.isKw("natural"):
			pgNot("join")
		default:
			return res
		}
	}
}

func (p *pgParser) sel() *pgStmt {
	p.needKw("select")
	s := &pgStmt{kind: "select"}
	s.distinct = p.kw("distinct")
	if s.distinct && p.isKw("on") {
		pgNot("distinct on")
	}
	s.items = p.items()
	if p.kw("from") {
		s.from = p.froms()
	}
	if p.kw("where") {
		s.where = p.expr(0)
	}
	if p.kw("group", "by") {
		for {
			s.group = append(s.group, p.expr(0))
			if !p.op(",") {
				break
			}
		}
	}
	if p.isKw("having") || p.isKw("union") || p.isKw("window") {
		pgNot("%s", p.peek().s)
	}
	if p.kw("order", "by") {
		for {
			s.order = append(s.order, p.expr(0))
			d := p.kw("desc")
			if !d {
				p.kw("asc")
			}
			if p.isKw("nulls") {
				pgNot("nulls first")
			}
			s.desc = append(s.desc, d)
			if !p.op(",") {
				break
			}
		}
	}
	for {
		if p.kw("limit") {
			if p.kw("all") {
				continue
			}
			s.limit = p.expr(0)
		} else if p.kw("offset") {
			s.offset = p.expr(0)
			p.kw("rows")
			p.kw("row")
		} else {
			break
		}
	}
	for p.kw("for") {
		switch {
		case p.kw("update"), p.kw("no", "key", "update"):
			s.lock = "update"
		case p.kw("share"), p.kw("key", "share"):
			s.lock = "share"
		default:
			p.syntax()
		}
		if p.kw("of") {
			p.ident()
		}
		if p.isKw("nowait") || p.isKw("skip") {
			pgNot("nowait")
		}
	}
	return s
}

func (p *pgParser) typeName() (string, int) {
	t := p.ident()
	switch t {
	case "timestamp", "time":
		size := 0
		if p.op("(") {
			p.i++
			p.needOp(")")
		}
		if p.kw("with", "time", "zone") {
			return "timestamptz", size
		}
		p.kw("without", "time", "zone")
		return "timestamptz", size
	case "character":
		p.needKw("varying")
		t = "varchar"
	case "double":
		p.needKw("precision")
		t = "float8"
	}
	size := 0
	if p.op("(") {
		size, _ = strconv.Atoi(p.peek().s)
		p.i++
		if p.op(",") {
			p.i++
		}
		p.needOp(")")
	}
	if p.op("[") {
		p.needOp("]")
		t += "[]"
	}
	switch t {
	case "int4", "int":
		t = "integer"
	case "int8":
		t = "bigint"
	case "bool":
		t = "boolean"
	case "json":
		t = "jsonb"
	}
	switch t {
	case "varchar", "text", "integer", "bigint", "boolean", "jsonb", "timestamptz", "float8", "text[]", "varchar[]", "smallint":
	default:
		pgNot("type %s", t)
	}
	return t, size
}

func (p *pgParser) references() *pgFK {
	f := &pgFK{table: p.table()}
	if p.isOp("(") {
		f.refs = p.identList()
	}
	for {
		switch {
		case p.kw("on", "delete", "cascade"):
			f.cascade = true
		case p.kw("on", "delete", "set", "null"):
			f.setNull = true
		case p.kw("on", "delete", "restrict"), p.kw("on", "delete", "no", "action"), p.kw("on", "update", "cascade"), p.kw("on", "update", "restrict"), p.kw("on", "update", "no", "action"):
		default:
			return f
		}
	}
}

func (p *pgParser) createTable() *pgStmt {
	s := &pgStmt{kind: "create"}
	s.ifNot = p.kw("if", "not", "exists")
	t := &pgTable{name: p.table()}
	p.needOp("(")
	for {
		if p.kw("constraint") {
			p.ident()
		}
		switch {
		case p.kw("primary", "key"):
			t.pk = p.identList()
		case p.kw("unique"):
			t.uniq = append(t.uniq, p.identList())
		case p.kw("foreign", "key"):
			cs := p.identList()
			p.needKw("references")
			f := p.references()
			f.cols = cs
			t.fks = append(t.fks, f)
		case p.isKw("check"), p.isKw("exclude"):
			pgNot("%s", p.peek().s)
		default:
			c := pgCol{name: p.ident()}
			c.typ, c.size = p.typeName()
		col:
			for {
				switch {
				case p.kw("not", "null"):
					c.notNull = true
				case p.kw("null"):
				case p.kw("default"):
					c.def = p.expr(7)
				case p.kw("primary", "key"):
					t.pk = []string{c.name}
				case p.kw("unique"):
					t.uniq = append(t.uniq, []string{c.name})
				case p.kw("references"):
					f := p.references()
					f.cols = []string{c.name}
					t.fks = append(t.fks, f)
				default:
					break col
				}
			}
			t.cols = append(t.cols, c)
		}
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	for i := range t.cols {
		for _, k := range t.pk {
			if t.cols[i].name == k {
				t.cols[i].notNull = true
			}
		}
	}
	if t.pk != nil {
		t.uniq = append([][]string{t.pk}, t.uniq...)
	}
	s.create = t
	return s
}

func (p *pgParser) uniqueIndex() *pgStmt {
	p.needKw("create", "unique", "index")
	p.kw("concurrently")
	p.kw("if", "not", "exists")
	if !p.isKw("on") {
		p.ident()
	}
	p.needKw("on")
	s := &pgStmt{kind: "unique", table: p.table()}
	if p.kw("using") {
		p.ident()
	}
	s.cols = p.identList()
	if p.isKw("where") {
		pgNot("a partial index")
	}
	return s
}

// the precedence of the operators: or 1, and 2, not 3, is 4, comparisons 5, between in like 6, other operators 7,
// + - 8, * / 9, :: and postfix 10
func (p *pgParser) expr(min int) *pgX {
	var x *pgX
	switch {
	case p.isKw("not"):
		p.i++
		x = &pgX{op: "not", args: []*pgX{p.expr(3)}}
	case p.isOp("-"):
		p.i++
		x = &pgX{op: "neg", args: []*pgX{p.expr(9)}}
	default:
		x = p.primary()
	}
	for {
		t := p.peek()
		prec, op, neg := 0, "", false
		switch {
		case t.k == 'o':
			op = t.s
			switch t.s {
			case "=", "<>", "!=", "<", ">", "<=", ">=":
				prec = 5
				if op == "!=" {
					op = "<>"
				}
			case "->>", "->", "||", "@>", "<@", "?":
				prec = 7
			case "?|", "?&":
				pgNot("operator %s", t.s)
			case "+", "-":
				prec = 8
			case "*", "/", "%":
				prec = 9
			case "::", "[":
				prec = 10
			}
		case t.k == 'i':
			switch {
			case p.isKw("or"):
				prec, op = 1, "or"
			case p.isKw("and"):
				prec, op = 2, "and"
			case p.isKw("is"):
				prec, op = 4, "is"
			case p.isKw("in"), p.isKw("like"), p.isKw("ilike"), p.isKw("between"):
				prec, op = 6, t.s
			case p.isKw("not", "in"), p.isKw("not", "like"), p.isKw("not", "ilike"), p.isKw("not", "between"):
				prec, op, neg = 6, p.ts[p.i+1].s, true
			case p.isKw("at", "time", "zone"):
				prec, op = 10, "zone"
			case p.isKw("collate"):
				prec, op = 10, "collate"
			case p.isKw("similar"), p.isKw("isnull"), p.isKw("notnull"):
				pgNot("%s", t.s)
			}
		}
		if prec == 0 || prec <= min && !(prec == 3) {
			return x
		}
		p.i++
		if neg {
			p.i++
		}
		switch op {
		case "::":
			ty, _ := p.typeName()
			x = &pgX{op: "cast", typ: ty, args: []*pgX{x}}
		case "[":
			pgNot("a subscript")
		case "zone":
			p.i += 2
			p.expr(10)
		case "collate":
			if n := p.ident(); n != "C" && n != "POSIX" {
				pgNot("collation %s", n)
			}
		case "is":
			n := p.kw("not")
			switch {
			case p.kw("null"):
				x = &pgX{op: "isnull", neg: n, args: []*pgX{x}}
			case p.kw("true"):
				x = &pgX{op: "istrue", neg: n, args: []*pgX{x}}
			case p.kw("false"):
				x = &pgX{op: "isfalse", neg: n, args: []*pgX{x}}
			case p.kw("distinct", "from"):
				x = &pgX{op: "distinct", neg: n, args: []*pgX{x, p.expr(4)}}
			default:
				p.syntax()
			}
		case "in":
			p.needOp("(")
			y := &pgX{op: "in", neg: neg, args: []*pgX{x}}
			if p.isKw("select") {
				y.sel = p.sel()
			} else {
				for {
					y.args = append(y.args, p.expr(0))
					if !p.op(",") {
						break
					}
				}
			}
			p.needOp(")")
			x = y
		case "like", "ilike":
			y := p.expr(6)
			x = &pgX{op: op, neg: neg, args: []*pgX{x, y}}
			if p.kw("escape") {
				x.args = append(x.args, p.expr(6))
			}
		case "between":
			lo := p.expr(6)
			p.needKw("and")
			hi := p.expr(6)
			x = &pgX{op: "between", neg: neg, args: []*pgX{x, lo, hi}}
		default:
			if prec == 5 && (p.isKw("any") || p.isKw("all") || p.isKw("some")) {
				w := p.peek().s
				p.i++
				p.needOp("(")
				y := &pgX{op: "any", name: op, neg: w == "all", args: []*pgX{x}}
				if p.isKw("select") {
					y.sel = p.sel()
				} else {
					y.args = append(y.args, p.expr(0))
				}
				p.needOp(")")
				x = y
				continue
			}
			x = &pgX{op: op, args: []*pgX{x, p.expr(prec)}}
			if prec == 5 {
				// comparisons do not associate
				if t := p.peek(); t.k == 'o' && strings.Contains(" = <> != < > <= >= ", " "+t.s+" ") {
					p.syntax()
				}
			}
		}
	}
}

var pgAggs = map[string]bool{"count": true, "min": true, "max": true, "sum": true, "bool_or": true, "bool_and": true}

func (p *pgParser) primary() *pgX {
	t := p.peek()
	switch t.k {
	case 'n':
		p.i++
		if n, err := strconv.ParseInt(t.s, 10, 64); err == nil {
			return &pgX{op: "const", val: n}
		}
		f, err := strconv.ParseFloat(t.s, 64)
		if err != nil {
			p.i--
			p.syntax()
		}
		return &pgX{op: "const", val: f}
	case 's':
		p.i++
		return &pgX{op: "const", val: t.s, typ: "unknown"}
	case 'p':
		p.i++
		n, _ := strconv.Atoi(t.s)
		if n < 1 {
			pgFail("42P02", "there is no parameter $%d", n)
		}
		if n > p.maxP {
			p.maxP = n
		}
		return &pgX{op: "param", val: n}
	case 'o':
		if p.op("(") {
			if p.isKw("select") {
				x := &pgX{op: "subq", sel: p.sel()}
				p.needOp(")")
				return x
			}
			x := p.expr(0)
			if p.isOp(",") {
				x = &pgX{op: "row", args: []*pgX{x}}
				for p.op(",") {
					x.args = append(x.args, p.expr(0))
				}
			}
			p.needOp(")")
			return x
		}
		p.syntax()
	case 'i', 'q':
		switch {
		case p.kw("true"):
			return &pgX{op: "const", val: true}
		case p.kw("false"):
			return &pgX{op: "const", val: false}
		case p.kw("null"):
			return &pgX{op: "const"}
		case p.kw("current_timestamp"):
			return &pgX{op: "call", name: "now"}
		case p.isKw("exists") && p.ts[p.i+1] == (pgTok{'o', "("}):
			p.i += 2
			x := &pgX{op: "exists", sel: p.sel()}
			p.needOp(")")
			return x
		case p.kw("case"):
			x := &pgX{op: "case"}
			if !p.isKw("when") {
				pgNot("a simple case")
			}
			for p.kw("when") {
				c := p.expr(0)
				p.needKw("then")
				x.args = append(x.args, c, p.expr(0))
			}
			if p.kw("else") {
				x.args = append(x.args, p.expr(0))
			}
			p.needKw("end")
			return x
		case p.isKw("array"), p.isKw("interval"):
			pgNot("%s", t.s)
		case p.isKw("cast") && p.ts[p.i+1] == (pgTok{'o', "("}):
			p.i += 2
			x := p.expr(0)
			p.needKw("as")
			ty, _ := p.typeName()
			p.needOp(")")
			return &pgX{op: "cast", typ: ty, args: []*pgX{x}}
		}
		name := p.ident()
		if p.op("(") {
			x := &pgX{op: "call", name: name}
			if p.op("*") {
				x.typ = "*"
			} else if !p.isOp(")") {
				if p.kw("distinct") {
					pgNot("aggregate with distinct")
				}
				for {
					x.args = append(x.args, p.expr(0))
					if !p.op(",") {
						break
					}
				}
			}
			p.needOp(")")
			if p.kw("over") {
				p.needOp("(")
				if !p.isOp(")") {
					pgNot("window")
				}
				p.needOp(")")
				if name != "count" {
					pgNot("window function %s", name)
				}
				x.op = "window"
			} else if p.isKw("filter") {
				pgNot("filter")
			} else if pgAggs[name] {
				x.op = "agg"
			}
			return x
		}
		if p.isOp(".") && p.ts[p.i+1].k != 'o' {
			p.i++
			t := p.peek()
			if t.k != 'i' && t.k != 'q' {
				p.syntax()
			}
			p.i++
			return &pgX{op: "col", tab: name, name: t.s}
		}
		return &pgX{op: "col", name: name}
	}
	p.syntax()
	return nil
}

// ---------------------------------------------------------------- evaluation

type pgBind struct {
	as  string
	t   *pgTable
	row []any // nil: all columns are null
}

type pgEnv struct {
	up     *pgEnv
	binds  []pgBind
	ex     *pgExec
	rows   []*pgEnv // of the group
	total  int64
	hidden map[string]bool
}

type pgExec struct {
	d      *pgData
	params []any
	now    time.Time
	shuf   func(n int) []int
}

func (t *pgTable) col(n string) int {
	for i := range t.cols {
		if t.cols[i].name == n {
			return i
		}
	}
	return -1
}

func (ex *pgExec) table(n string) *pgTable {
	t := ex.d.tables[n]
	if t == nil {
		pgFail("42P01", "relation %q does not exist", n)
	}
	return t
}

func (e *pgEnv) lookup(tab, name string) any {
	for x := e; x != nil; x = x.up {
		found := -1
		ci := -1
		for i, b := range x.binds {
			if tab != "" && b.as != tab || tab == "" && b.as == "excluded" {
				continue
			}
			if c := b.t.col(name); c >= 0 {
				if found >= 0 {
					pgFail("42702", "column reference %q is ambiguous", name)
				}
				found, ci = i, c
			} else if tab != "" {
				pgFail("42703", "column %s.%s does not exist", tab, name)
			}
		}
		if found >= 0 {
			if x.binds[found].row == nil {
				return nil
			}
			return x.binds[found].row[ci]
		}
	}
	if tab != "" {
		pgFail("42P01", "missing FROM-clause entry for table %q", tab)
	}
	pgFail("42703", "column %q does not exist", name)
	return nil
}

func pgBool(v any) any {
	switch b := v.(type) {
	case nil:
		return nil
	case bool:
		return b
	case string:
		return pgCast(b, "boolean")
	}
	pgFail("42804", "argument must be type boolean")
	return nil
}

func pgAnd(a, b any) any {
	if a == false || b == false {
		return false
	}
	if a == nil || b == nil {
		return nil
	}
	return true
}

func pgNeg(v any) any {
	if v == nil {
		return nil
	}
	return !v.(bool)
}

func pgOr(a, b any) any { return pgNeg(pgAnd(pgNeg(a), pgNeg(b))) }

// pgCmp compares two values which are not null
func pgCmp(a, b any) int {
	switch x := a.(type) {
	case string:
		switch y := b.(type) {
		case string:
			return strings.Compare(x, y)
		case []byte:
			return strings.Compare(x, string(y))
		case nil:
		default:
			return -pgCmp(b, a)
		}
	case []byte:
		return pgCmp(string(x), b)
	case int64:
		switch y := b.(type) {
		case int64:
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		case float64:
			return pgCmp(float64(x), y)
		case string, []byte:
			return pgCmp(x, pgCast(y, "bigint"))
		}
	case float64:
		switch y := b.(type) {
		case float64:
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		case int64:
			return pgCmp(x, float64(y))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return 0
			} else if y {
				return -1
			}
			return 1
		case string, []byte:
			return pgCmp(x, pgCast(y, "boolean"))
		}
	case time.Time:
		switch y := b.(type) {
		case time.Time:
			return x.Compare(y)
		case string, []byte:
			return x.Compare(pgCast(y, "timestamptz").(time.Time))
		}
	case pgJSON:
		y := b
		if _, ok := y.(pgJSON); !ok {
			y = pgCast(y, "jsonb")
		}
		if reflect.DeepEqual(x.v, y.(pgJSON).v) {
			return 0
		}
		return bytes.Compare(pgText(x), pgText(y))
	}
	pgFail("42883", "operator does not exist: %T and %T", a, b)
	return 0
}

func pgText(v any) []byte {
	switch x := v.(type) {
	case string:
		return []byte(x)
	case []byte:
		return x
	case int64:
		return strconv.AppendInt(nil, x, 10)
	case float64:
		return strconv.AppendFloat(nil, x, 'g', -1, 64)
	case bool:
		return strconv.AppendBool(nil, x)
	case time.Time:
		return []byte(x.Format("2006-01-02 15:04:05.999999999Z07:00"))
	case pgJSON:
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		e.Encode(x.v)
		return bytes.TrimRight(b.Bytes(), "\n")
	}
	pgNot("text of %T", v)
	return nil
}

func pgJSONCheck(v any) {
	switch x := v.(type) {
	case string:
		if strings.IndexByte(x, 0) >= 0 {
			pgFail("22P05", "unsupported Unicode escape sequence")
		}
	case map[string]any:
		for k, e := range x {
			pgJSONCheck(k)
			pgJSONCheck(e)
		}
	case []any:
		for _, e := range x {
			pgJSONCheck(e)
		}
	}
}

func pgCast(v any, typ string) any {
	if v == nil {
		return nil
	}
	if b, ok := v.([]byte); ok {
		v = string(b)
	}
	switch typ {
	case "varchar", "text":
		return string(pgText(v))
	case "integer", "bigint", "smallint":
		var n int64
		switch x := v.(type) {
		case int64:
			n = x
		case float64:
			n = int64(math.RoundToEven(x))
		case bool:
			if x {
				n = 1
			}
		case string:
			var err error
			if n, err = strconv.ParseInt(strings.TrimSpace(x), 10, 64); err != nil {
				pgFail("22P02", "invalid input syntax for type %s: %q", typ, x)
			}
		default:
			pgFail("42846", "cannot cast %T to %s", v, typ)
		}
		if typ == "integer" && n != int64(int32(n)) || typ == "smallint" && n != int64(int16(n)) {
			pgFail("22003", "%s out of range", typ)
		}
		return n
	case "float8":
		switch x := v.(type) {
		case int64:
			return float64(x)
		case float64:
			return x
		}
	case "boolean":
		switch x := v.(type) {
		case bool:
			return x
		case int64:
			return x != 0
		case string:
			switch strings.ToLower(strings.TrimSpace(x)) {
			case "t", "true", "1", "on", "yes", "y":
				return true
			case "f", "false", "0", "off", "no", "n":
				return false
			}
			pgFail("22P02", "invalid input syntax for type boolean: %q", x)
		}
	case "timestamptz":
		switch x := v.(type) {
		case time.Time:
			return x.Round(time.Microsecond).UTC()
		case string:
			for _, f := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999Z07", "2006-01-02 15:04:05.999999999", "2006-01-02"} {
				if t, err := time.Parse(f, x); err == nil {
					return t.Round(time.Microsecond).UTC()
				}
			}
			pgFail("22007", "invalid input syntax for type timestamp with time zone: %q", x)
		}
	case "jsonb":
		switch x := v.(type) {
		case pgJSON:
			return x
		case string:
			d := json.NewDecoder(strings.NewReader(x))
			d.UseNumber()
			var r any
			if err := d.Decode(&r); err != nil || strings.TrimSpace(x[d.InputOffset():]) != "" {
				pgFail("22P02", "invalid input syntax for type json: %q", x)
			}
			pgJSONCheck(r)
			return pgJSON{r}
		}
	case "text[]", "varchar[]":
		if s, ok := v.(string); ok {
			return s
		}
	}
	pgFail("42846", "cannot cast %T to %s", v, typ)
	return nil
}

// pgArray parses the text form of an array
func pgArray(s string) []any {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		pgFail("22P02", "malformed array literal: %q", s)
	}
	s = s[1 : len(s)-1]
	var res []any
	for i := 0; i < len(s); {
		var b []byte
		quoted := false
		if s[i] == '"' {
			quoted = true
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
				b = append(b, s[i])
			}
			i++
		} else {
			for ; i < len(s) && s[i] != ','; i++ {
				b = append(b, s[i])
			}
		}
		if !quoted && strings.EqualFold(string(b), "null") {
			res = append(res, nil)
		} else {
			res = append(res, string(b))
		}
		if i < len(s) && s[i] == ',' {
			i++
		}
	}
	return res
}

// pgLike: with the escape character 0 there is none
func pgLike(s, pat string, esc rune) bool {
	type el struct {
		r rune
		k byte // 'c' character, '_' any, '%' many
	}
	var els []el
	rs := []rune(pat)
	for i := 0; i < len(rs); i++ {
		switch {
		case esc != 0 && rs[i] == esc:
			i++
			if i == len(rs) {
				pgFail("22025", "LIKE pattern must not end with escape character")
			}
			els = append(els, el{rs[i], 'c'})
		case rs[i] == '%':
			els = append(els, el{0, '%'})
		case rs[i] == '_':
			els = append(els, el{0, '_'})
		default:
			els = append(els, el{rs[i], 'c'})
		}
	}
	sr := []rune(s)
	ok := make([]bool, len(sr)+1)
	ok[0] = true
	for _, e := range els {
		n := make([]bool, len(sr)+1)
		switch e.k {
		case '%':
			on := false
			for i := range n {
				on = on || ok[i]
				n[i] = on
			}
		default:
			for i := range sr {
				if ok[i] && (e.k == '_' || sr[i] == e.r) {
					n[i+1] = true
				}
			}
		}
		ok = n
	}
	return ok[len(sr)]
}

func pgRel(op string, a, b any) any {
	if a == nil || b == nil {
		return nil
	}
	c := pgCmp(a, b)
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	case ">=":
		return c >= 0
	}
	pgNot("operator %s", op)
	return nil
}

func (e *pgEnv) eval(x *pgX) any {
	ex := e.ex
	bin := func() (any, any) { return e.eval(x.args[0]), e.eval(x.args[1]) }
	neg := func(v any) any {
		if x.neg {
			return pgNeg(v)
		}
		return v
	}
	switch x.op {
	case "const":
		return x.val
	case "param":
		return ex.params[x.val.(int)-1]
	case "col":
		return e.lookup(x.tab, x.name)
	case "and":
		a, b := bin()
		return pgAnd(pgBool(a), pgBool(b))
	case "or":
		a, b := bin()
		return pgOr(pgBool(a), pgBool(b))
	case "not":
		return pgNeg(pgBool(e.eval(x.args[0])))
	case "neg":
		switch v := e.eval(x.args[0]).(type) {
		case nil:
			return nil
		case int64:
			return -v
		case float64:
			return -v
		}
		pgFail("42883", "operator does not exist")
	case "=", "<>", "<", ">", "<=", ">=":
		if l, r := x.args[0], x.args[1]; l.op == "row" || r.op == "row" {
			if l.op != "row" || r.op != "row" || len(l.args) != len(r.args) {
				pgFail("42601", "unequal number of entries in row expressions")
			}
			return e.rowCmp(x.op, l.args, r.args)
		}
		a, b := bin()
		return pgRel(x.op, a, b)
	case "distinct":
		a, b := bin()
		d := a == nil != (b == nil)
		if a != nil && b != nil {
			d = pgCmp(a, b) != 0
		}
		return d != x.neg
	case "isnull":
		return (e.eval(x.args[0]) == nil) != x.neg
	case "istrue":
		return (pgBool(e.eval(x.args[0])) == true) != x.neg
	case "isfalse":
		return (pgBool(e.eval(x.args[0])) == false) != x.neg
	case "in":
		a := x.args[0]
		var res any = false
		if x.sel != nil {
			_, rows := ex.selectRows(x.sel, e)
			v := e.eval(a)
			for _, r := range rows {
				if len(r) != 1 {
					pgFail("42601", "subquery has too many columns")
				}
				res = pgOr(res, pgRel("=", v, r[0]))
			}
			return neg(res)
		}
		for _, y := range x.args[1:] {
			if a.op == "row" {
				if y.op != "row" || len(a.args) != len(y.args) {
					pgFail("42601", "unequal number of entries in row expressions")
				}
				res = pgOr(res, e.rowCmp("=", a.args, y.args))
				continue
			}
			res = pgOr(res, pgRel("=", e.eval(a), e.eval(y)))
		}
		return neg(res)
	case "any":
		v := e.eval(x.args[0])
		var vals []any
		if x.sel != nil {
			_, rows := ex.selectRows(x.sel, e)
			for _, r := range rows {
				vals = append(vals, r[0])
			}
		} else {
			switch a := e.eval(x.args[1]).(type) {
			case nil:
				return nil
			case string:
				vals = pgArray(a)
			case []byte:
				vals = pgArray(string(a))
			default:
				pgFail("42809", "op ANY/ALL (array) requires array on right side")
			}
		}
		var res any = x.neg
		for _, y := range vals {
			r := pgRel(x.name, v, y)
			if x.neg {
				res = pgAnd(res, r)
			} else {
				res = pgOr(res, r)
			}
		}
		return res
	case "like", "ilike":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		esc := '\\'
		if len(x.args) > 2 {
			s := string(pgText(e.eval(x.args[2])))
			esc, _ = utf8.DecodeRuneInString(s)
			if s == "" {
				esc = 0
			}
		}
		if _, ok := a.(pgJSON); ok {
			pgFail("42883", "operator does not exist: jsonb ~~ unknown")
		}
		s, pat := string(pgText(a)), string(pgText(b))
		if x.op == "ilike" {
			s, pat = strings.ToLower(s), strings.ToLower(pat)
		}
		return neg(pgLike(s, pat, esc))
	case "between":
		v, lo, hi := e.eval(x.args[0]), e.eval(x.args[1]), e.eval(x.args[2])
		return neg(pgAnd(pgRel(">=", v, lo), pgRel("<=", v, hi)))
	case "->>", "->":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		j, ok := a.(pgJSON)
		if !ok {
			pgFail("42883", "operator does not exist: text %s unknown", x.op)
		}
		m, ok := j.v.(map[string]any)
		if !ok {
			return nil
		}
		v, ok := m[string(pgText(b))]
		if !ok {
			return nil
		}
		if x.op == "->" {
			return pgJSON{v}
		}
		if v == nil {
			return nil
		}
		if s, ok := v.(string); ok {
			return s
		}
		return string(pgText(pgJSON{v}))
	case "?":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		m, _ := pgCast(a, "jsonb").(pgJSON).v.(map[string]any)
		_, ok := m[string(pgText(b))]
		return ok
	case "@>", "<@":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		if x.op == "<@" {
			a, b = b, a
		}
		m, ok := pgCast(a, "jsonb").(pgJSON).v.(map[string]any)
		n, ok2 := pgCast(b, "jsonb").(pgJSON).v.(map[string]any)
		if !ok || !ok2 {
			pgNot("containment of values which are not objects")
		}
		for k, v := range n {
			if w, ok := m[k]; !ok || !reflect.DeepEqual(v, w) {
				return false
			}
		}
		return true
	case "||":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		ja, ok := a.(pgJSON)
		jb, ok2 := b.(pgJSON)
		if ok || ok2 {
			if !ok {
				ja = pgCast(a, "jsonb").(pgJSON)
			}
			if !ok2 {
				jb = pgCast(b, "jsonb").(pgJSON)
			}
			m, ok := ja.v.(map[string]any)
			n, ok2 := jb.v.(map[string]any)
			if !ok || !ok2 {
				pgNot("concatenation of json values which are not objects")
			}
			r := map[string]any{}
			for k, v := range m {
				r[k] = v
			}
			for k, v := range n {
				r[k] = v
			}
			return pgJSON{r}
		}
		return string(pgText(a)) + string(pgText(b))
	case "+", "-", "*", "/", "%":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		if j, ok := a.(pgJSON); ok && x.op == "-" {
			m, ok := j.v.(map[string]any)
			if !ok {
				pgNot("deletion from a json value which is not an object")
			}
			r := map[string]any{}
			for k, v := range m {
				if k != string(pgText(b)) {
					r[k] = v
				}
			}
			return pgJSON{r}
		}
		n, m := pgCast(a, "bigint").(int64), pgCast(b, "bigint").(int64)
		switch x.op {
		case "+":
			return n + m
		case "-":
			return n - m
		case "*":
			return n * m
		}
		if m == 0 {
			pgFail("22012", "division by zero")
		}
		if x.op == "/" {
			return n / m
		}
		return n % m
	case "cast":
		return pgCast(e.eval(x.args[0]), x.typ)
	case "case":
		i := 0
		for ; i+1 < len(x.args); i += 2 {
			if pgBool(e.eval(x.args[i])) == true {
				return e.eval(x.args[i+1])
			}
		}
		if i < len(x.args) {
			return e.eval(x.args[i])
		}
		return nil
	case "exists":
		_, rows := ex.selectRows(x.sel, e)
		return len(rows) > 0
	case "subq":
		_, rows := ex.selectRows(x.sel, e)
		if len(rows) == 0 {
			return nil
		}
		if len(rows) > 1 {
			pgFail("21000", "more than one row returned by a subquery used as an expression")
		}
		return rows[0][0]
	case "window":
		return e.total
	case "agg":
		if e.rows == nil && e.total >= 0 {
			pgFail("42803", "aggregate functions are not allowed here")
		}
		return e.agg(x)
	case "call":
		var as []any
		for _, a := range x.args {
			as = append(as, e.eval(a))
		}
		switch x.name {
		case "now", "statement_timestamp", "clock_timestamp", "transaction_timestamp":
			return ex.now.Round(time.Microsecond).UTC()
		case "coalesce":
			for _, a := range as {
				if a != nil {
					return a
				}
			}
			return nil
		case "lower", "upper", "length":
			if len(as) != 1 {
				pgFail("42883", "function %s does not exist", x.name)
			}
			if as[0] == nil {
				return nil
			}
			s := string(pgText(as[0]))
			if x.name == "lower" {
				return strings.ToLower(s)
			} else if x.name == "upper" {
				return strings.ToUpper(s)
			}
			return int64(utf8.RuneCountInString(s))
		case "greatest", "least":
			var r any
			for _, a := range as {
				if a != nil && (r == nil || (pgCmp(a, r) > 0) == (x.name == "greatest")) {
					r = a
				}
			}
			return r
		case "nullif":
			if as[0] != nil && as[1] != nil && pgCmp(as[0], as[1]) == 0 {
				return nil
			}
			return as[0]
		}
		pgNot("function %s", x.name)
	case "default":
		pgNot("default here")
	case "row":
		pgNot("a row here")
	}
	pgNot("expression %s", x.op)
	return nil
}

func (e *pgEnv) rowCmp(op string, l, r []*pgX) any {
	if op == "=" || op == "<>" {
		var res any = true
		for i := range l {
			res = pgAnd(res, pgRel("=", e.eval(l[i]), e.eval(r[i])))
		}
		if op == "<>" {
			return pgNeg(res)
		}
		return res
	}
	for i := range l {
		a, b := e.eval(l[i]), e.eval(r[i])
		if a == nil || b == nil {
			return nil
		}
		if c := pgCmp(a, b); c != 0 || i == len(l)-1 {
			return pgRel(op, a, b)
		}
	}
	return nil
}

func (e *pgEnv) agg(x *pgX) any {
	if x.typ == "*" {
		return int64(len(e.rows))
	}
	if len(x.args) != 1 {
		pgFail("42883", "function %s does not exist", x.name)
	}
	n := int64(0)
	var res any
	for _, r := range e.rows {
		v := r.eval(x.args[0])
		if v == nil {
			continue
		}
		n++
		switch {
		case x.name == "sum":
			if res == nil {
				res = int64(0)
			}
			res = res.(int64) + pgCast(v, "bigint").(int64)
		case x.name == "bool_or":
			res = pgOr(pgBool(v), res == true)
		case x.name == "bool_and":
			res = pgAnd(pgBool(v), res != false)
		case res == nil, x.name == "min" && pgCmp(v, res) < 0, x.name == "max" && pgCmp(v, res) > 0:
			res = v
		}
	}
	if x.name == "count" {
		return n
	}
	return res
}

func pgHas(x *pgX, op string) bool {
	if x == nil {
		return false
	}
	if x.op == op {
		return true
	}
	for _, a := range x.args {
		if pgHas(a, op) {
			return true
		}
	}
	return false
}

// sources returns an environment for every combination of the rows
func (ex *pgExec) sources(from []pgFrom, start []*pgEnv) []*pgEnv {
	envs := start
	for _, f := range from {
		t := ex.table(f.table)
		for _, b := range envs {
			for _, x := range b.binds {
				if x.as == f.as {
					pgFail("42712", "table name %q specified more than once", f.as)
				}
			}
			break
		}
		var next []*pgEnv
		ord := ex.shuf(len(t.rows))
		for _, e := range envs {
			hit := false
			for _, i := range ord {
				n := &pgEnv{up: e.up, ex: ex, binds: append(append([]pgBind{}, e.binds...), pgBind{f.as, t, t.rows[i]})}
				if f.on == nil || pgBool(n.eval(f.on)) == true {
					hit = true
					next = append(next, n)
				}
			}
			if f.kind == "left" && !hit {
				next = append(next, &pgEnv{up: e.up, ex: ex, binds: append(append([]pgBind{}, e.binds...), pgBind{f.as, t, nil})})
			}
		}
		envs = next
	}
	return envs
}

func pgName(it pgItem) string {
	switch {
	case it.as != "":
		return it.as
	case it.x.op == "col", it.x.op == "call", it.x.op == "agg", it.x.op == "window":
		return it.x.name
	case it.x.op == "exists", it.x.op == "case":
		return it.x.op
	case it.x.op == "cast" && it.x.args[0].op == "col":
		return it.x.args[0].name
	}
	return "?column?"
}

// project computes the columns of the result; binds are of the statement without rows
func (ex *pgExec) header(items []pgItem, binds []pgBind) []string {
	var cols []string
	for _, it := range items {
		if it.star == "" {
			cols = append(cols, pgName(it))
			continue
		}
		hit := false
		for _, b := range binds {
			if b.as == it.star || it.star == "*" && b.as != "excluded" {
				hit = true
				for _, c := range b.t.cols {
					cols = append(cols, c.name)
				}
			}
		}
		if !hit {
			pgFail("42P01", "missing FROM-clause entry for table %q", it.star)
		}
	}
	return cols
}

func (e *pgEnv) project(items []pgItem) []any {
	var row []any
	for _, it := range items {
		if it.star == "" {
			row = append(row, e.eval(it.x))
			continue
		}
		for _, b := range e.binds {
			if b.as == it.star || it.star == "*" && b.as != "excluded" {
				if b.row == nil {
					row = append(row, make([]any, len(b.t.cols))...)
				} else {
					row = append(row, b.row...)
				}
			}
		}
	}
	return row
}

func (ex *pgExec) check(x *pgX, binds []pgBind, up *pgEnv) {
	// unknown columns are reported even if there are no rows
	if x == nil {
		return
	}
	if x.op == "col" {
		(&pgEnv{up: up, ex: ex, binds: binds}).lookup(x.tab, x.name)
	}
	for _, a := range x.args {
		ex.check(a, binds, up)
	}
}

func pgCount(x *pgX, e *pgEnv, what string) int {
	v := e.eval(x)
	if v == nil {
		return -1
	}
	n := pgCast(v, "bigint").(int64)
	if n < 0 {
		pgFail("2201W", "%s must not be negative", what)
	}
	return int(n)
}

func (ex *pgExec) selectRows(s *pgStmt, up *pgEnv) ([]string, [][]any) {
	var binds []pgBind
	for _, f := range s.from {
		binds = append(binds, pgBind{f.as, ex.table(f.table), nil})
	}
	for _, it := range s.items {
		ex.check(it.x, binds, up)
	}
	ex.check(s.where, binds, up)
	alias := func(x *pgX) *pgX {
		if x.op == "col" && x.tab == "" {
			for _, it := range s.items {
				if it.as == x.name {
					return it.x
				}
			}
		}
		if n, ok := x.val.(int64); ok && x.op == "const" && n >= 1 && int(n) <= len(s.items) && s.items[n-1].x != nil {
			return s.items[n-1].x
		}
		return x
	}
	for _, x := range s.order {
		ex.check(alias(x), binds, up)
	}
	base := &pgEnv{up: up, ex: ex}
	envs := ex.sources(s.from, []*pgEnv{base})
	if s.where != nil {
		var keep []*pgEnv
		for _, e := range envs {
			if pgBool(e.eval(s.where)) == true {
				keep = append(keep, e)
			}
		}
		envs = keep
	}
	agg := len(s.group) > 0
	for _, it := range s.items {
		agg = agg || pgHas(it.x, "agg")
	}
	if agg {
		if s.lock != "" {
			pgFail("0A000", "FOR UPDATE is not allowed with aggregate functions")
		}
		groups := map[string]*pgEnv{}
		var keys []string
		if len(s.group) == 0 {
			// a column outside of an aggregate is an error
			for _, it := range s.items {
				if it.star != "" || pgLoose(it.x) {
					pgFail("42803", "column must appear in the GROUP BY clause or be used in an aggregate function")
				}
			}
			groups[""] = &pgEnv{up: up, ex: ex, rows: []*pgEnv{}}
			keys = []string{""}
		}
		for _, e := range envs {
			k := ""
			for _, g := range s.group {
				if v := e.eval(alias(g)); v == nil {
					k += "n|"
				} else {
					k += "v" + string(pgText(v)) + "|"
				}
			}
			g := groups[k]
			if g == nil {
				g = &pgEnv{up: up, ex: ex, binds: e.binds}
				groups[k] = g
				keys = append(keys, k)
			}
			g.rows = append(g.rows, e)
		}
		envs = nil
		for _, k := range keys {
			envs = append(envs, groups[k])
		}
	}
	for _, e := range envs {
		e.total = int64(len(envs))
	}
	if len(s.order) > 0 {
		sort.SliceStable(envs, func(i, j int) bool {
			for k, x := range s.order {
				a, b := envs[i].eval(alias(x)), envs[j].eval(alias(x))
				c := 0
				switch {
				case a == nil && b == nil:
				case a == nil:
					c = 1
				case b == nil:
					c = -1
				default:
					c = pgCmp(a, b)
				}
				if s.desc[k] {
					c = -c
				}
				if c != 0 {
					return c < 0
				}
			}
			return false
		})
	}
	cols := ex.header(s.items, binds)
	var rows [][]any
	for _, e := range envs {
		rows = append(rows, e.project(s.items))
	}
	if s.distinct {
		seen := map[string]bool{}
		var keep [][]any
		for _, r := range rows {
			k := ""
			for _, v := range r {
				if v == nil {
					k += "n|"
				} else {
					k += "v" + string(pgText(v)) + "|"
				}
			}
			if !seen[k] {
				seen[k] = true
				keep = append(keep, r)
			}
		}
		rows = keep
	}
	if s.offset != nil {
		if n := pgCount(s.offset, base, "OFFSET"); n > 0 {
			rows = rows[min(n, len(rows)):]
		}
	}
	if s.limit != nil {
		if n := pgCount(s.limit, base, "LIMIT"); n >= 0 && n < len(rows) {
			rows = rows[:n]
		}
	}
	return cols, rows
}

func pgLoose(x *pgX) bool {
	if x == nil || x.op == "agg" {
		return false
	}
	if x.op == "col" {
		return true
	}
	for _, a := range x.args {
		if pgLoose(a) {
			return true
		}
	}
	return false
}

// pgResult of a statement
type pgResult struct {
	cols []string
	rows [][]any
	n    int64
	tag  string
}

func (ex *pgExec) store(t *pgTable, ci int, v any) any {
	c := &t.cols[ci]
	if v == nil {
		if c.notNull {
			pgFail("23502", "null value in column %q violates not-null constraint", c.name)
		}
		return nil
	}
	v = pgCast(v, c.typ)
	if s, ok := v.(string); ok && c.size > 0 && utf8.RuneCountInString(s) > c.size {
		pgFail("22001", "value too long for type character varying(%d)", c.size)
	}
	return v
}

func (t *pgTable) key(row []any, cols []string) (string, bool) {
	k := ""
	for _, c := range cols {
		v := row[t.col(c)]
		if v == nil {
			return "", false
		}
		b := pgText(v)
		k += strconv.Itoa(len(b)) + ":" + string(b)
	}
	return k, true
}

// conflict returns the index of a row (not skip) with the key of the constraint
func (t *pgTable) conflict(row []any, cols []string, skip int) int {
	k, ok := t.key(row, cols)
	if !ok {
		return -1
	}
	for i, r := range t.rows {
		if i != skip {
			if k2, ok := t.key(r, cols); ok && k2 == k {
				return i
			}
		}
	}
	return -1
}

func (ex *pgExec) checkRow(t *pgTable, row []any, idx int) {
	for _, u := range t.uniq {
		if t.conflict(row, u, idx) >= 0 {
			pgFail("23505", "duplicate key value violates unique constraint of %q", t.name)
		}
	}
	for _, f := range t.fks {
		k, ok := t.key(row, f.cols)
		if !ok {
			continue
		}
		rt := ex.table(f.table)
		refs := f.refs
		if refs == nil {
			refs = rt.pk
		}
		hit := false
		for _, r := range rt.rows {
			if k2, ok := rt.key(r, refs); ok && k2 == k {
				hit = true
				break
			}
		}
		if !hit {
			pgFail("23503", "insert or update on table %q violates foreign key constraint", t.name)
		}
	}
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !inList(x, b...) {
			return false
		}
	}
	return true
}

func (ex *pgExec) assign(t *pgTable, row []any, sets []pgSet, e *pgEnv) []any {
	n := append([]any{}, row...)
	for _, s := range sets {
		for i, c := range s.cols {
			ci := t.col(c)
			if ci < 0 {
				pgFail("42703", "column %q of relation %q does not exist", c, t.name)
			}
			var v any
			if s.vals[i].op == "default" {
				if t.cols[ci].def != nil {
					v = e.eval(t.cols[ci].def)
				}
			} else {
				v = e.eval(s.vals[i])
			}
			n[ci] = ex.store(t, ci, v)
		}
	}
	return n
}

// removed deletes or changes the rows which refer to the row
func (ex *pgExec) removed(t *pgTable, row []any) {
	var names []string
	for n := range ex.d.tables {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		o := ex.d.tables[n]
		for _, f := range o.fks {
			if f.table != t.name {
				continue
			}
			refs := f.refs
			if refs == nil {
				refs = t.pk
			}
			k, ok := t.key(row, refs)
			if !ok {
				continue
			}
			var keep, gone [][]any
			for _, r := range o.rows {
				k2, ok := o.key(r, f.cols)
				if !ok || k2 != k {
					keep = append(keep, r)
					continue
				}
				switch {
				case f.cascade:
					gone = append(gone, r)
				case f.setNull:
					r2 := append([]any{}, r...)
					for _, c := range f.cols {
						r2[o.col(c)] = ex.store(o, o.col(c), nil)
					}
					keep = append(keep, r2)
				default:
					pgFail("23503", "update or delete on table %q violates foreign key constraint on table %q", t.name, n)
				}
			}
			o.rows = keep
			for _, r := range gone {
				ex.removed(o, r)
			}
		}
	}
}

func (ex *pgExec) run(s *pgStmt) (res pgResult) {
	defer func() { res.tag = s.kind }()
	switch s.kind {
	case "nop":
	case "select":
		res.cols, res.rows = ex.selectRows(s, nil)
		res.n = int64(len(res.rows))
	case "create":
		if ex.d.tables[s.create.name] != nil {
			if !s.ifNot {
				pgFail("42P07", "relation %q already exists", s.create.name)
			}
			return
		}
		t := *s.create
		t.rows = nil
		for _, f := range t.fks {
			if f.table != t.name {
				ex.table(f.table)
			}
		}
		ex.d.tables[t.name] = &t
	case "unique":
		t := ex.table(s.table)
		t.uniq = append(append([][]string{}, t.uniq...), s.cols)
		for i, r := range t.rows {
			ex.checkRow(t, r, i)
		}
	case "drop":
		for _, n := range s.names {
			if ex.d.tables[n] == nil {
				if s.ifNot {
					continue
				}
				pgFail("42P01", "table %q does not exist", n)
			}
			for _, o := range ex.d.tables {
				for _, f := range o.fks {
					if f.table == n && o.name != n && !s.cascade && !inList(o.name, s.names...) {
						pgFail("2BP01", "cannot drop table %s because other objects depend on it", n)
					}
				}
			}
			delete(ex.d.tables, n)
		}
	case "insert":
		t := ex.table(s.table)
		cols := s.cols
		if cols == nil {
			for _, c := range t.cols {
				cols = append(cols, c.name)
			}
		}
		var idx []int
		for _, c := range cols {
			ci := t.col(c)
			if ci < 0 {
				pgFail("42703", "column %q of relation %q does not exist", c, t.name)
			}
			idx = append(idx, ci)
		}
		e0 := &pgEnv{ex: ex}
		var src [][]any
		var isDef [][]bool
		if s.sel != nil {
			_, src = ex.selectRows(s.sel, nil)
		} else {
			for _, vs := range s.values {
				if len(vs) > len(cols) {
					pgFail("42601", "INSERT has more expressions than target columns")
				}
				var row []any
				var df []bool
				for _, x := range vs {
					if x.op == "default" {
						row, df = append(row, nil), append(df, true)
					} else {
						row, df = append(row, e0.eval(x)), append(df, false)
					}
				}
				src, isDef = append(src, row), append(isDef, df)
			}
		}
		if s.doWhat != "" && s.conflict != nil {
			ok := false
			for _, u := range t.uniq {
				ok = ok || sameSet(u, s.conflict)
			}
			if !ok {
				pgFail("42P10", "there is no unique or exclusion constraint matching the ON CONFLICT specification")
			}
		}
		res.cols = ex.header(s.ret, []pgBind{{s.as, t, nil}})
		mine := map[string]bool{} // the keys written by this statement
		for k, vals := range src {
			if len(vals) > len(cols) || s.cols != nil && len(vals) < len(cols) {
				pgFail("42601", "INSERT has more target columns than expressions")
			}
			row := make([]any, len(t.cols))
			for i := range t.cols {
				v, given := any(nil), false
				for j := range vals {
					if idx[j] == i && !(isDef != nil && isDef[k][j]) {
						v, given = vals[j], true
					}
				}
				if !given && t.cols[i].def != nil {
					v = e0.eval(t.cols[i].def)
				}
				row[i] = ex.store(t, i, v)
			}
			hit := -1
			var hu []string
			if s.doWhat != "" {
				for _, u := range t.uniq {
					if s.conflict == nil || sameSet(u, s.conflict) {
						if hit = t.conflict(row, u, -1); hit >= 0 {
							hu = u
							break
						}
					}
				}
			}
			if hit >= 0 {
				if s.doWhat == "nothing" {
					continue
				}
				key, _ := t.key(row, hu)
				if mine[key] {
					pgFail("21000", "ON CONFLICT DO UPDATE command cannot affect row a second time")
				}
				mine[key] = true
				e := &pgEnv{ex: ex, binds: []pgBind{{s.as, t, t.rows[hit]}, {"excluded", t, row}}}
				if s.where2 != nil && pgBool(e.eval(s.where2)) != true {
					continue
				}
				n := ex.assign(t, t.rows[hit], s.sets, e)
				ex.checkRow(t, n, hit)
				t.rows[hit] = n
				row = n
			} else {
				ex.checkRow(t, row, -1)
				if s.conflict != nil {
					key, _ := t.key(row, s.conflict)
					mine[key] = true
				}
				t.rows = append(t.rows, row)
			}
			res.n++
			if s.hasRet {
				res.rows = append(res.rows, (&pgEnv{ex: ex, binds: []pgBind{{s.as, t, row}}}).project(s.ret))
			}
		}
	case "update", "delete":
		t := ex.table(s.table)
		tb := []pgBind{{s.as, t, nil}}
		all := append([]pgBind{}, tb...)
		for _, f := range s.from {
			all = append(all, pgBind{f.as, ex.table(f.table), nil})
		}
		ex.check(s.where, all, nil)
		for _, set := range s.sets {
			for _, v := range set.vals {
				ex.check(v, all, nil)
			}
		}
		res.cols = ex.header(s.ret, all)
		type hit struct {
			i int
			e *pgEnv
		}
		var hits []hit
		for _, i := range ex.shuf(len(t.rows)) {
			envs := ex.sources(s.from, []*pgEnv{{ex: ex, binds: []pgBind{{s.as, t, t.rows[i]}}}})
			for _, e := range envs {
				if s.where == nil || pgBool(e.eval(s.where)) == true {
					hits = append(hits, hit{i, e})
					break
				}
			}
		}
		if s.kind == "update" {
			news := map[int][]any{}
			for _, h := range hits {
				news[h.i] = ex.assign(t, t.rows[h.i], s.sets, h.e)
			}
			for _, h := range hits {
				t.rows[h.i] = news[h.i]
			}
			for _, h := range hits {
				ex.checkRow(t, news[h.i], h.i)
				if s.hasRet {
					h.e.binds[0].row = news[h.i]
					res.rows = append(res.rows, h.e.project(s.ret))
				}
				for _, o := range ex.d.tables {
					for _, f := range o.fks {
						if f.table == t.name {
							for _, st := range s.sets {
								for _, c := range st.cols {
									if inList(c, t.pk...) {
										pgNot("an update of a key others refer to")
									}
								}
							}
						}
					}
				}
			}
		} else {
			del := map[int]bool{}
			for _, h := range hits {
				del[h.i] = true
			}
			var keep, gone [][]any
			for i, r := range t.rows {
				if del[i] {
					gone = append(gone, r)
				} else {
					keep = append(keep, r)
				}
			}
			t.rows = keep
			for _, r := range gone {
				ex.removed(t, r)
			}
			if s.hasRet {
				for _, h := range hits {
					res.rows = append(res.rows, h.e.project(s.ret))
				}
			}
		}
		res.n = int64(len(hits))
	default:
		pgNot("statement %s", s.kind)
	}
	return
}
