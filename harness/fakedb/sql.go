// Package fakedb is the environment model of the database explorers: an in-process database with a
// schema, catalogue tables that are really queried (by a small SQL interpreter, so that the checks
// judge what a query means and not how it is written), DDL execution on the reference schema model,
// and a fault plan over its driver calls.
package fakedb

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ErrUnsupported: the query uses SQL this interpreter does not know; such cases are not judged.
var ErrUnsupported = errors.New("fakedb: SQL not understood")

type val = any // nil, string, int64, bool

type rel struct {
	cols []rcol
	rows [][]val
}

type rcol struct{ tab, name string }

type tok struct {
	k byte // w word, q quoted identifier, s string, n number, p punctuation, 0 end
	s string
}

// Dial is what differs between databases for the interpreter.
type Dial struct {
	DoubleIsString bool // "x" is a string
	UpperLabels    bool // result columns are labelled in upper case
	LowerLabels    bool
}

func lexSQL(q string, d Dial) ([]tok, error) {
	var out []tok
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"), c == '#':
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			j := strings.Index(q[i:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 2
		case c == '\'' || (c == '"' || c == '`'):
			var b strings.Builder
			j := i + 1
			for ; ; j++ {
				if j >= len(q) {
					return nil, fmt.Errorf("unterminated quote")
				}
				if q[j] == '\\' && c != '`' && d.DoubleIsString && j+1 < len(q) {
					b.WriteString(q[j : j+2])
					j++
					continue
				}
				if q[j] == c {
					if j+1 < len(q) && q[j+1] == c {
						b.WriteByte(c)
						j++
						continue
					}
					break
				}
				b.WriteByte(q[j])
			}
			k := byte('q')
			if c == '\'' || c == '"' && d.DoubleIsString {
				k = 's'
			}
			s := b.String()
			if len(out) > 0 && k == 's' && out[len(out)-1].k == 'w' && strings.EqualFold(out[len(out)-1].s, "E") && q[i-1] != ' ' {
				out = out[:len(out)-1]
				s = strings.NewReplacer(`\n`, "\n", `\t`, "\t", `\\`, `\`, `\'`, "'").Replace(s)
			}
			out = append(out, tok{k, s})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			out = append(out, tok{'n', q[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] == '$' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			out = append(out, tok{'w', q[i:j]})
			i = j
		default:
			n := 1
			for _, p := range []string{"||", "<>", "!=", "<=", ">=", "::"} {
				if strings.HasPrefix(q[i:], p) {
					n = 2
				}
			}
			if c == '$' && i+1 < len(q) && q[i+1] >= '0' && q[i+1] <= '9' {
				n = 2
			}
			out = append(out, tok{'p', q[i : i+n]})
			i += n
		}
	}
	return append(out, tok{}), nil
}

type expr interface{}

type (
	eLit struct{ v val }
	eCol struct{ tab, name string }
	eBin struct {
		op   string
		l, r expr
	}
	eNot    struct{ e expr }
	eIsNull struct {
		e   expr
		not bool
	}
	eIn struct {
		e    expr
		list []expr
		sub  *sel
		not  bool
	}
	eLike struct {
		e, p expr
		not  bool
	}
	eCase struct {
		base  expr
		whens [][2]expr
		els   expr
	}
	eFn struct {
		name     string
		args     []expr
		distinct bool
		star     bool
		order    []ord
	}
	eSub struct {
		s      *sel
		exists bool
	}
	eCast struct {
		e  expr
		ty string
	}
)

type ord struct {
	e    expr
	desc bool
}

type item struct {
	e     expr
	alias string
	star  string // "*" or table name
	label string
}

type src struct {
	name  string
	alias string
	sub   *sel
	kind  string // "", "inner", "left", "cross"
	on    expr
	using []string
}

type sel struct {
	distinct bool
	items    []item
	from     []src
	where    expr
	group    []expr
	having   expr
	order    []ord
	limit    int
	union    *sel
	unionAll bool
	with     map[string]*sel
}

type sp struct {
	t    []tok
	i    int
	args []val
	arg  int
	d    Dial
}

func (p *sp) fail(f string, a ...any) {
	panic(fmt.Errorf("%w: %s near token %d %q", ErrUnsupported, fmt.Sprintf(f, a...), p.i, p.t[min(p.i, len(p.t)-1)].s))
}
func (p *sp) peek() tok { return p.t[min(p.i, len(p.t)-1)] }
func (p *sp) isKw(w string) bool {
	t := p.peek()
	return t.k == 'w' && strings.EqualFold(t.s, w)
}
func (p *sp) kw(ws ...string) bool {
	for j, w := range ws {
		t := p.t[min(p.i+j, len(p.t)-1)]
		if t.k != 'w' || !strings.EqualFold(t.s, w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *sp) isP(s string) bool { t := p.peek(); return t.k == 'p' && t.s == s }
func (p *sp) punct(s string) bool {
	if p.isP(s) {
		p.i++
		return true
	}
	return false
}
func (p *sp) need(s string) {
	if !p.punct(s) {
		p.fail("expected %s", s)
	}
}

var reservedWords = map[string]bool{"FROM": true, "WHERE": true, "GROUP": true, "ORDER": true, "HAVING": true, "LIMIT": true, "JOIN": true, "INNER": true, "LEFT": true, "RIGHT": true, "CROSS": true, "FULL": true, "ON": true, "USING": true,
	"AND": true, "OR": true, "NOT": true, "IN": true, "IS": true, "AS": true, "WHEN": true, "THEN": true, "ELSE": true, "END": true, "UNION": true, "SELECT": true, "DESC": true, "ASC": true, "LIKE": true, "SEPARATOR": true, "OUTER": true, "NULLS": true, "BETWEEN": true, "LATERAL": true}

func (p *sp) name() string {
	t := p.peek()
	if t.k == 'q' || t.k == 'w' && !reservedWords[strings.ToUpper(t.s)] {
		p.i++
		return t.s
	}
	p.fail("expected a name")
	return ""
}

func (p *sp) selectStmt() *sel {
	with := map[string]*sel{}
	if p.kw("WITH") {
		for {
			n := p.name()
			if !p.kw("AS") {
				p.fail("AS")
			}
			p.need("(")
			with[strings.ToLower(n)] = p.selectStmt()
			p.need(")")
			if !p.punct(",") {
				break
			}
		}
	}
	if !p.kw("SELECT") {
		p.fail("expected SELECT")
	}
	s := &sel{limit: -1, with: with}
	s.distinct = p.kw("DISTINCT")
	p.kw("ALL")
	for {
		var it item
		if p.punct("*") {
			it.star = "*"
		} else if p.peek().k == 'w' && p.t[min(p.i+1, len(p.t)-1)].s == "." && p.t[min(p.i+2, len(p.t)-1)].s == "*" {
			it.star = p.name()
			p.i += 2
		} else {
			it.e = p.expr()
			if c, ok := it.e.(eCol); ok {
				it.label = c.name
			} else if f, ok := it.e.(eFn); ok {
				it.label = strings.ToLower(f.name)
			} else {
				it.label = "?column?"
			}
			if p.kw("AS") {
				it.alias = p.label()
			} else if t := p.peek(); t.k == 'q' || t.k == 's' || t.k == 'w' && !reservedWords[strings.ToUpper(t.s)] {
				it.alias = p.label()
			}
		}
		s.items = append(s.items, it)
		if !p.punct(",") {
			break
		}
	}
	if p.kw("FROM") {
		s.from = append(s.from, p.source())
		for {
			if p.punct(",") {
				f := p.source()
				f.kind = "cross"
				s.from = append(s.from, f)
				continue
			}
			kind := ""
			switch {
			case p.kw("LEFT", "OUTER", "JOIN"), p.kw("LEFT", "JOIN"):
				kind = "left"
			case p.kw("INNER", "JOIN"), p.kw("JOIN"):
				kind = "inner"
			case p.kw("CROSS", "JOIN"):
				kind = "cross"
			}
			if kind == "" {
				break
			}
			f := p.source()
			f.kind = kind
			if p.kw("ON") {
				f.on = p.expr()
			} else if p.kw("USING") {
				p.need("(")
				for {
					f.using = append(f.using, p.name())
					if !p.punct(",") {
						break
					}
				}
				p.need(")")
			}
			s.from = append(s.from, f)
		}
	}
	if p.kw("WHERE") {
		s.where = p.expr()
	}
	if p.kw("GROUP", "BY") {
		s.group = p.list()
	}
	if p.kw("HAVING") {
		s.having = p.expr()
	}
	if p.kw("UNION") {
		s.unionAll = p.kw("ALL")
		s.union = p.selectStmt()
		return s
	}
	if p.kw("ORDER", "BY") {
		s.order = p.orders()
	}
	if p.kw("LIMIT") {
		t := p.peek()
		p.i++
		s.limit, _ = strconv.Atoi(t.s)
	}
	return s
}

func (p *sp) label() string {
	if t := p.peek(); t.k == 's' {
		p.i++
		return t.s
	}
	return p.name()
}

func (p *sp) orders() (out []ord) {
	for {
		o := ord{e: p.expr()}
		if p.kw("DESC") {
			o.desc = true
		} else {
			p.kw("ASC")
		}
		out = append(out, o)
		if !p.punct(",") {
			return out
		}
	}
}

func (p *sp) list() (out []expr) {
	for {
		out = append(out, p.expr())
		if !p.punct(",") {
			return out
		}
	}
}

func (p *sp) source() src {
	var f src
	if p.kw("LATERAL") {
		p.fail("LATERAL")
	}
	if p.punct("(") {
		f.sub = p.selectStmt()
		p.need(")")
	} else {
		f.name = p.name()
		for p.punct(".") {
			f.name += "." + p.name()
		}
		f.alias = f.name[strings.LastIndexByte(f.name, '.')+1:]
	}
	if p.kw("AS") {
		f.alias = p.name()
	} else if t := p.peek(); t.k == 'q' || t.k == 'w' && !reservedWords[strings.ToUpper(t.s)] {
		f.alias = p.name()
	}
	return f
}

func (p *sp) expr() expr {
	l := p.and()
	for p.kw("OR") {
		l = eBin{"or", l, p.and()}
	}
	return l
}
func (p *sp) and() expr {
	l := p.not()
	for p.kw("AND") {
		l = eBin{"and", l, p.not()}
	}
	return l
}
func (p *sp) not() expr {
	if p.isKw("NOT") && !strings.EqualFold(p.t[min(p.i+1, len(p.t)-1)].s, "EXISTS") {
		p.i++
		return eNot{p.not()}
	}
	if p.kw("NOT", "EXISTS") {
		p.i--
		return eNot{p.cmp()}
	}
	return p.cmp()
}
func (p *sp) cmp() expr {
	l := p.cat()
	for {
		t := p.peek()
		switch {
		case t.k == 'p' && (t.s == "=" || t.s == "!=" || t.s == "<>" || t.s == "<" || t.s == ">" || t.s == "<=" || t.s == ">="):
			p.i++
			op := t.s
			if op == "<>" {
				op = "!="
			}
			if op == "=" && p.isKw("ANY") && p.t[min(p.i+1, len(p.t)-1)].s == "(" {
				p.i += 2
				if p.isKw("SELECT") {
					l = eIn{e: l, sub: p.selectStmt()}
				} else {
					l = eBin{"any", l, p.expr()}
				}
				p.need(")")
				continue
			}
			if (p.isKw("ANY") || p.isKw("ALL")) && p.t[min(p.i+1, len(p.t)-1)].s == "(" {
				p.fail("ANY/ALL")
			}
			l = eBin{op, l, p.cat()}
		case p.kw("IS", "NOT", "NULL"):
			l = eIsNull{l, true}
		case p.kw("IS", "NULL"):
			l = eIsNull{l, false}
		case p.kw("IS", "NOT", "DISTINCT", "FROM"):
			p.fail("IS DISTINCT")
		case p.kw("IS", "NOT", "TRUE"):
			l = eNot{eBin{"istrue", l, nil}}
		case p.kw("IS", "TRUE"):
			l = eBin{"istrue", l, nil}
		case p.kw("NOT", "IN"):
			l = p.in(l, true)
		case p.kw("IN"):
			l = p.in(l, false)
		case p.kw("NOT", "LIKE"):
			l = eLike{l, p.cat(), true}
		case p.kw("LIKE"):
			l = eLike{l, p.cat(), false}
		default:
			return l
		}
	}
}
func (p *sp) in(l expr, not bool) expr {
	p.need("(")
	e := eIn{e: l, not: not}
	if p.isKw("SELECT") || p.isKw("WITH") {
		e.sub = p.selectStmt()
	} else {
		e.list = p.list()
	}
	p.need(")")
	return e
}
func (p *sp) cat() expr {
	l := p.post()
	for {
		switch {
		case p.punct("||"):
			l = eBin{"||", l, p.post()}
		case p.punct("+"):
			l = eBin{"+", l, p.post()}
		case p.punct("-"):
			l = eBin{"-", l, p.post()}
		default:
			return l
		}
	}
}
func (p *sp) post() expr {
	e := p.prim()
	for p.punct("::") {
		ty := p.name()
		if p.punct("[") {
			p.need("]")
		}
		e = eCast{e, strings.ToLower(ty)}
	}
	return e
}
func (p *sp) prim() expr {
	t := p.peek()
	switch {
	case t.k == 's':
		p.i++
		return eLit{t.s}
	case t.k == 'n':
		p.i++
		n, _ := strconv.ParseInt(t.s, 10, 64)
		return eLit{n}
	case p.isP("?"):
		p.i++
		if p.arg >= len(p.args) {
			panic(fmt.Errorf("too few arguments"))
		}
		v := p.args[p.arg]
		p.arg++
		return eLit{v}
	case t.k == 'p' && len(t.s) == 2 && t.s[0] == '$':
		p.i++
		n := int(t.s[1] - '1')
		if n >= len(p.args) {
			panic(fmt.Errorf("too few arguments"))
		}
		p.arg = max(p.arg, n+1)
		return eLit{p.args[n]}
	case t.k == 'p' && t.s == "@":
		p.fail("named parameter")
	case p.punct("("):
		if p.isKw("SELECT") || p.isKw("WITH") {
			s := p.selectStmt()
			p.need(")")
			return eSub{s, false}
		}
		e := p.expr()
		p.need(")")
		return e
	case p.kw("EXISTS"):
		p.need("(")
		s := p.selectStmt()
		p.need(")")
		return eSub{s, true}
	case p.kw("NULL"):
		return eLit{nil}
	case p.kw("TRUE"):
		return eLit{true}
	case p.kw("FALSE"):
		return eLit{false}
	case p.kw("CASE"):
		var c eCase
		if !p.isKw("WHEN") {
			c.base = p.expr()
		}
		for p.kw("WHEN") {
			w := p.expr()
			if !p.kw("THEN") {
				p.fail("THEN")
			}
			c.whens = append(c.whens, [2]expr{w, p.expr()})
		}
		if p.kw("ELSE") {
			c.els = p.expr()
		}
		if !p.kw("END") {
			p.fail("END")
		}
		return c
	case p.isKw("CAST") && p.t[min(p.i+1, len(p.t)-1)].s == "(":
		p.i += 2
		e := p.expr()
		if !p.kw("AS") {
			p.fail("AS")
		}
		ty := p.name()
		p.need(")")
		return eCast{e, strings.ToLower(ty)}
	case t.k == 'w' || t.k == 'q':
		n := p.name()
		if p.isP("(") && t.k == 'w' {
			return p.call(n)
		}
		parts := []string{n}
		for p.punct(".") {
			parts = append(parts, p.name())
		}
		if p.isP("(") {
			return p.call(parts[len(parts)-1])
		}
		if len(parts) == 1 {
			return eCol{"", parts[0]}
		}
		return eCol{parts[len(parts)-2], parts[len(parts)-1]}
	}
	p.fail("expression")
	return nil
}
func (p *sp) call(n string) expr {
	p.need("(")
	f := eFn{name: strings.ToLower(n)}
	if p.punct(")") {
		return f
	}
	if p.punct("*") {
		f.star = true
		p.need(")")
		return f
	}
	f.distinct = p.kw("DISTINCT")
	f.args = p.list()
	if p.kw("ORDER", "BY") {
		f.order = p.orders()
	}
	if p.kw("SEPARATOR") {
		f.args = append(f.args, p.prim())
	}
	p.need(")")
	if p.isKw("OVER") || p.isKw("FILTER") {
		p.fail("window")
	}
	return f
}

// env is a row being evaluated; group!=nil inside an aggregate query.
type env struct {
	r     *rel
	row   []val
	group [][]val
	outer *env
	q     *querier
}

type querier struct {
	lookup func(name string) *rel
	fn     func(name string, args []val) (val, bool)
	perm   func(n int) []int // the order in which unordered rows come
	d      Dial
	with   map[string]*sel
}

func (e *env) col(tab, name string) val {
	found := -1
	for i, c := range e.r.cols {
		if strings.EqualFold(c.name, name) && (tab == "" || strings.EqualFold(c.tab, tab)) {
			if found >= 0 && tab == "" {
				panic(fmt.Errorf("column reference %q is ambiguous", name))
			}
			if found < 0 {
				found = i
			}
		}
	}
	if found >= 0 {
		if e.row == nil {
			return nil
		}
		return e.row[found]
	}
	if e.outer != nil {
		return e.outer.col(tab, name)
	}
	panic(fmt.Errorf("column %q does not exist", strings.TrimPrefix(tab+"."+name, ".")))
}

func str(v val) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	return ""
}

func cmpVal(a, b val) int {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			return int(x - y)
		}
	}
	return strings.Compare(str(a), str(b))
}

var aggNames = map[string]bool{"string_agg": true, "group_concat": true, "count": true, "max": true, "min": true, "array_agg": true, "bool_and": true, "bool_or": true}

func hasAgg(x expr) bool {
	switch e := x.(type) {
	case eFn:
		if aggNames[e.name] {
			return true
		}
		for _, a := range e.args {
			if hasAgg(a) {
				return true
			}
		}
	case eBin:
		return hasAgg(e.l) || hasAgg(e.r)
	case eNot:
		return hasAgg(e.e)
	case eIsNull:
		return hasAgg(e.e)
	case eCast:
		return hasAgg(e.e)
	case eCase:
		for _, w := range e.whens {
			if hasAgg(w[0]) || hasAgg(w[1]) {
				return true
			}
		}
		return hasAgg(e.els)
	}
	return false
}

func truth(v val) bool {
	switch x := v.(type) {
	case bool:
		return x
	case int64:
		return x != 0
	}
	return false
}

func (e *env) eval(x expr) val {
	switch n := x.(type) {
	case nil:
		return nil
	case eLit:
		return n.v
	case eCol:
		if n.tab == "" && (strings.EqualFold(n.name, "current_schema") || strings.EqualFold(n.name, "current_database")) {
			if v, ok := e.q.fn(strings.ToLower(n.name), nil); ok {
				return v
			}
		}
		return e.col(n.tab, n.name)
	case eCast:
		v := e.eval(n.e)
		if v == nil {
			return nil
		}
		switch n.ty {
		case "text", "varchar", "string", "char", "name":
			return str(v)
		case "int64", "int", "integer", "bigint", "signed":
			k, err := strconv.ParseInt(str(v), 10, 64)
			if err != nil {
				panic(fmt.Errorf("invalid input syntax for type integer: %q", str(v)))
			}
			return k
		case "regclass", "oid":
			return v
		}
		panic(fmt.Errorf("%w: cast to %s", ErrUnsupported, n.ty))
	case eNot:
		v := e.eval(n.e)
		if v == nil {
			return nil
		}
		return !truth(v)
	case eIsNull:
		return (e.eval(n.e) == nil) != n.not
	case eLike:
		a, b := e.eval(n.e), e.eval(n.p)
		if a == nil || b == nil {
			return nil
		}
		return like(str(a), str(b)) != n.not
	case eIn:
		v := e.eval(n.e)
		if v == nil {
			return nil
		}
		var vals []val
		if n.sub != nil {
			r := e.q.run(n.sub, e)
			if len(r.cols) != 1 {
				panic(fmt.Errorf("subquery has too many columns"))
			}
			for _, row := range r.rows {
				vals = append(vals, row[0])
			}
		} else {
			for _, a := range n.list {
				vals = append(vals, e.eval(a))
			}
		}
		null := false
		for _, w := range vals {
			if w == nil {
				null = true
			} else if cmpVal(v, w) == 0 {
				return !n.not
			}
		}
		if null {
			return nil
		}
		return n.not
	case eSub:
		r := e.q.run(n.s, e)
		if n.exists {
			return len(r.rows) > 0
		}
		if len(r.rows) == 0 {
			return nil
		}
		if len(r.rows) > 1 {
			panic(fmt.Errorf("more than one row returned by a subquery used as an expression"))
		}
		return r.rows[0][0]
	case eCase:
		for _, w := range n.whens {
			if n.base != nil {
				a, b := e.eval(n.base), e.eval(w[0])
				if a != nil && b != nil && cmpVal(a, b) == 0 {
					return e.eval(w[1])
				}
			} else if truth(e.eval(w[0])) {
				return e.eval(w[1])
			}
		}
		return e.eval(n.els)
	case eBin:
		switch n.op {
		case "and", "or":
			a, b := e.eval(n.l), e.eval(n.r)
			if n.op == "and" {
				if a != nil && !truth(a) || b != nil && !truth(b) {
					return false
				}
			} else if truth(a) || truth(b) {
				return true
			}
			if a == nil || b == nil {
				return nil
			}
			return n.op == "and"
		case "istrue":
			return truth(e.eval(n.l))
		}
		a, b := e.eval(n.l), e.eval(n.r)
		if a == nil || b == nil {
			return nil
		}
		switch n.op {
		case "any":
			vs, ok := b.([]val)
			if !ok {
				panic(fmt.Errorf("%w: ANY of %T", ErrUnsupported, b))
			}
			for _, v := range vs {
				if v != nil && cmpVal(a, v) == 0 {
					return true
				}
			}
			return false
		case "=":
			return cmpVal(a, b) == 0
		case "!=":
			return cmpVal(a, b) != 0
		case "<":
			return cmpVal(a, b) < 0
		case ">":
			return cmpVal(a, b) > 0
		case "<=":
			return cmpVal(a, b) <= 0
		case ">=":
			return cmpVal(a, b) >= 0
		case "||":
			return str(a) + str(b)
		case "+", "-":
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if !ok1 || !ok2 {
				panic(fmt.Errorf("%w: arithmetic", ErrUnsupported))
			}
			if n.op == "-" {
				return x - y
			}
			return x + y
		}
	case eFn:
		return e.call(n)
	}
	panic(fmt.Errorf("%w: expression %T", ErrUnsupported, x))
}

func like(s, p string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '\\':
		if len(p) > 1 {
			return s != "" && s[0] == p[1] && like(s[1:], p[2:])
		}
	case '_':
		return s != "" && like(s[1:], p[1:])
	}
	return s != "" && s[0] == p[0] && like(s[1:], p[1:])
}

func (e *env) call(n eFn) val {
	if aggNames[n.name] {
		if e.group == nil {
			panic(fmt.Errorf("aggregate outside of a grouped query"))
		}
		rows := e.group
		sub := func(row []val) *env { return &env{r: e.r, row: row, outer: e.outer, q: e.q} }
		if len(n.order) > 0 {
			rows = append([][]val{}, rows...)
			sort.SliceStable(rows, func(i, j int) bool { return less(sub(rows[i]), sub(rows[j]), n.order) })
		} else {
			rows = permute(rows, e.q.perm)
		}
		if n.name == "count" {
			if n.star {
				return int64(len(rows))
			}
		}
		var vals []val
		seen := map[string]bool{}
		sep := ","
		for _, row := range rows {
			s := sub(row)
			v := s.eval(n.args[0])
			if v == nil {
				continue
			}
			if n.distinct {
				if seen[str(v)] {
					continue
				}
				seen[str(v)] = true
			}
			if len(n.args) > 1 {
				sep = str(s.eval(n.args[1]))
			}
			vals = append(vals, v)
		}
		switch n.name {
		case "count":
			return int64(len(vals))
		case "string_agg", "group_concat":
			if len(vals) == 0 {
				return nil
			}
			var ss []string
			for _, v := range vals {
				ss = append(ss, str(v))
			}
			return strings.Join(ss, sep)
		case "max", "min":
			var best val
			for _, v := range vals {
				if best == nil || n.name == "max" && cmpVal(v, best) > 0 || n.name == "min" && cmpVal(v, best) < 0 {
					best = v
				}
			}
			return best
		}
		panic(fmt.Errorf("%w: aggregate %s", ErrUnsupported, n.name))
	}
	var args []val
	for _, a := range n.args {
		args = append(args, e.eval(a))
	}
	switch n.name {
	case "coalesce", "ifnull":
		for _, a := range args {
			if a != nil {
				return a
			}
		}
		return nil
	case "nullif":
		if args[0] != nil && args[1] != nil && cmpVal(args[0], args[1]) == 0 {
			return nil
		}
		return args[0]
	case "concat":
		s := ""
		for _, a := range args {
			s += str(a)
		}
		return s
	case "lower", "upper", "trim", "length":
		if args[0] == nil {
			return nil
		}
		switch n.name {
		case "lower":
			return strings.ToLower(str(args[0]))
		case "upper":
			return strings.ToUpper(str(args[0]))
		case "length":
			return int64(len(str(args[0])))
		}
		return strings.TrimSpace(str(args[0]))
	case "array_position":
		vs, _ := args[0].([]val)
		for i, v := range vs {
			if args[1] != nil && v != nil && cmpVal(v, args[1]) == 0 {
				return int64(i + 1)
			}
		}
		return nil
	case "regexp_replace":
		if args[0] == nil {
			return nil
		}
		re, err := regexp.Compile(str(args[1]))
		if err != nil || len(args) > 3 {
			panic(fmt.Errorf("%w: regexp_replace", ErrUnsupported))
		}
		if at := re.FindStringIndex(str(args[0])); at != nil { // the first match only
			return str(args[0])[:at[0]] + str(args[2]) + str(args[0])[at[1]:]
		}
		return str(args[0])
	case "replace":
		return strings.ReplaceAll(str(args[0]), str(args[1]), str(args[2]))
	case "if":
		if truth(args[0]) {
			return args[1]
		}
		return args[2]
	}
	if v, ok := e.q.fn(n.name, args); ok {
		return v
	}
	panic(fmt.Errorf("%w: function %s", ErrUnsupported, n.name))
}

func less(a, b *env, os []ord) bool {
	for _, o := range os {
		x, y := a.eval(o.e), b.eval(o.e)
		c := 0
		switch {
		case x == nil && y == nil:
		case x == nil:
			c = 1
		case y == nil:
			c = -1
		default:
			c = cmpVal(x, y)
		}
		if o.desc {
			c = -c
		}
		if c != 0 {
			return c < 0
		}
	}
	return false
}

func permute(rows [][]val, perm func(int) []int) [][]val {
	if len(rows) < 2 || perm == nil {
		return rows
	}
	out := make([][]val, len(rows))
	for i, j := range perm(len(rows)) {
		out[i] = rows[j]
	}
	return out
}

func (q *querier) source(f src, outer *env) *rel {
	var r *rel
	if f.sub != nil {
		r = q.run(f.sub, outer)
	} else if w, ok := q.with[strings.ToLower(f.name)]; ok {
		r = q.run(w, outer)
	} else {
		r = q.lookup(strings.ToLower(f.name))
		if r == nil {
			panic(fmt.Errorf("%w: relation %q", ErrUnsupported, f.name))
		}
	}
	n := &rel{rows: r.rows}
	for _, c := range r.cols {
		n.cols = append(n.cols, rcol{f.alias, c.name})
	}
	return n
}

func (q *querier) run(s *sel, outer *env) *rel {
	if len(s.with) > 0 {
		nq := *q
		nq.with = map[string]*sel{}
		for k, v := range q.with {
			nq.with[k] = v
		}
		for k, v := range s.with {
			nq.with[k] = v
		}
		q = &nq
	}
	cur := &rel{rows: [][]val{{}}}
	for i, f := range s.from {
		r := q.source(f, outer)
		if i == 0 {
			cur = r
			continue
		}
		n := &rel{cols: append(append([]rcol{}, cur.cols...), r.cols...)}
		for _, a := range cur.rows {
			hit := false
			for _, b := range r.rows {
				row := append(append([]val{}, a...), b...)
				ok := true
				e := &env{r: n, row: row, outer: outer, q: q}
				if f.on != nil {
					ok = truth(e.eval(f.on))
				}
				for _, u := range f.using {
					x := (&env{r: cur, row: a, q: q}).col("", u)
					y := (&env{r: r, row: b, q: q}).col("", u)
					ok = ok && x != nil && y != nil && cmpVal(x, y) == 0
				}
				if ok {
					hit = true
					n.rows = append(n.rows, row)
				}
			}
			if !hit && f.kind == "left" {
				n.rows = append(n.rows, append(append([]val{}, a...), make([]val, len(r.cols))...))
			}
		}
		if len(f.using) > 0 { // the joined columns appear once
			for _, u := range f.using {
				for j := len(cur.cols); j < len(n.cols); j++ {
					if strings.EqualFold(n.cols[j].name, u) {
						n.cols[j].name = "\x00" + u
					}
				}
			}
		}
		cur = n
	}
	var rows [][]val
	for _, row := range cur.rows {
		if s.where == nil || truth((&env{r: cur, row: row, outer: outer, q: q}).eval(s.where)) {
			rows = append(rows, row)
		}
	}
	agg := len(s.group) > 0
	for _, it := range s.items {
		agg = agg || it.e != nil && hasAgg(it.e)
	}
	var envs []*env
	if agg {
		groups := map[string][][]val{}
		var keys []string
		for _, row := range rows {
			k := ""
			e := &env{r: cur, row: row, outer: outer, q: q}
			for _, g := range s.group {
				v := e.eval(q.groupExpr(g, s))
				k += fmt.Sprintf("%T:%s\x00", v, str(v))
			}
			if _, ok := groups[k]; !ok {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], row)
		}
		if len(s.group) == 0 && len(keys) == 0 {
			keys = []string{""}
			groups[""] = [][]val{}
		}
		for _, k := range keys {
			g := groups[k]
			e := &env{r: cur, group: g, outer: outer, q: q}
			if len(g) > 0 {
				e.row = g[0]
			}
			if s.having == nil || truth(e.eval(s.having)) {
				envs = append(envs, e)
			}
		}
	} else {
		for _, row := range rows {
			envs = append(envs, &env{r: cur, row: row, outer: outer, q: q})
		}
	}
	out := &rel{}
	for _, it := range s.items {
		if it.star != "" {
			for _, c := range cur.cols {
				if (it.star == "*" || strings.EqualFold(it.star, c.tab)) && !strings.HasPrefix(c.name, "\x00") {
					out.cols = append(out.cols, rcol{"", c.name})
				}
			}
			continue
		}
		l := it.alias
		if l == "" {
			l = it.label
			if q.d.UpperLabels {
				l = strings.ToUpper(l)
			}
			if q.d.LowerLabels {
				l = strings.ToLower(l)
			}
		}
		out.cols = append(out.cols, rcol{"", l})
	}
	type pair struct {
		e   *env
		row []val
	}
	var ps []pair
	for _, e := range envs {
		var row []val
		for _, it := range s.items {
			if it.star != "" {
				for i, c := range cur.cols {
					if (it.star == "*" || strings.EqualFold(it.star, c.tab)) && !strings.HasPrefix(c.name, "\x00") {
						row = append(row, e.row[i])
					}
				}
				continue
			}
			row = append(row, e.eval(it.e))
		}
		ps = append(ps, pair{e, row})
	}
	if s.distinct {
		seen := map[string]bool{}
		var u []pair
		for _, p := range ps {
			k := fmt.Sprintf("%#v", p.row)
			if !seen[k] {
				seen[k] = true
				u = append(u, p)
			}
		}
		ps = u
	}
	if outer == nil && q.perm != nil && len(ps) > 1 {
		u := make([]pair, len(ps))
		for i, j := range q.perm(len(ps)) {
			u[i] = ps[j]
		}
		ps = u
	}
	if len(s.order) > 0 {
		// an output column may be named in ORDER BY
		sort.SliceStable(ps, func(i, j int) bool {
			for _, o := range s.order {
				x, y := q.orderVal(o.e, s, out, ps[i].e, ps[i].row), q.orderVal(o.e, s, out, ps[j].e, ps[j].row)
				c := 0
				switch {
				case x == nil && y == nil:
				case x == nil:
					c = 1
				case y == nil:
					c = -1
				default:
					c = cmpVal(x, y)
				}
				if o.desc {
					c = -c
				}
				if c != 0 {
					return c < 0
				}
			}
			return false
		})
	}
	for _, p := range ps {
		out.rows = append(out.rows, p.row)
	}
	if s.union != nil {
		r := q.run(s.union, outer)
		out.rows = append(out.rows, r.rows...)
		if !s.unionAll {
			seen := map[string]bool{}
			var u [][]val
			for _, row := range out.rows {
				k := fmt.Sprintf("%#v", row)
				if !seen[k] {
					seen[k] = true
					u = append(u, row)
				}
			}
			out.rows = u
		}
	}
	if s.limit >= 0 && len(out.rows) > s.limit {
		out.rows = out.rows[:s.limit]
	}
	return out
}

// groupExpr: GROUP BY 1 or an output alias.
func (q *querier) groupExpr(g expr, s *sel) expr {
	if l, ok := g.(eLit); ok {
		if n, ok := l.v.(int64); ok && n >= 1 && int(n) <= len(s.items) {
			return s.items[n-1].e
		}
	}
	return g
}

func (q *querier) orderVal(x expr, s *sel, out *rel, e *env, row []val) val {
	if l, ok := x.(eLit); ok {
		if n, ok := l.v.(int64); ok && n >= 1 && int(n) <= len(row) {
			return row[n-1]
		}
	}
	if c, ok := x.(eCol); ok && c.tab == "" {
		for i, it := range s.items {
			if strings.EqualFold(it.alias, c.name) && it.alias != "" && i < len(row) {
				return row[i]
			}
		}
	}
	return e.eval(x)
}

// Select runs one SELECT.
func (q *querier) Select(text string, args []val) (r *rel, err error) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(error); ok {
				if _, bug := e.(interface{ RuntimeError() }); bug {
					err = fmt.Errorf("%w: %v", ErrUnsupported, x)
					return
				}
				err = x
				return
			}
			panic(e)
		}
	}()
	ts, err := lexSQL(text, q.d)
	if err != nil {
		return nil, err
	}
	p := &sp{t: ts, args: args, d: q.d}
	s := p.selectStmt()
	p.punct(";")
	if p.peek().k != 0 {
		p.fail("trailing text")
	}
	if p.arg != len(args) {
		return nil, fmt.Errorf("expected %d arguments, got %d", p.arg, len(args))
	}
	return q.run(s, nil), nil
}
