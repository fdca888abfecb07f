package main

import (
	"math/rand"
	"strconv"
	"strings"
)

// Tok is a token of a rendered query. Gap tells what can be in front
// of it: nothing, optional whitespace, or required whitespace.
type Tok struct {
	Text string
	Gap  int
	KW   bool
	Alts []string // other spellings of the token
}

const (
	gNone = iota
	gOpt
	gReq
)

// Printer collects the tokens of a query
type Printer struct {
	toks []Tok
	gap  int
	rng  *rand.Rand // spelling variants of literals; nil for the plain ones
}

func (p *Printer) tok(text string, kw bool) {
	p.toks = append(p.toks, Tok{Text: text, Gap: p.gap, KW: kw})
	p.gap = gNone
}
func (p *Printer) w(text string)  { p.tok(text, false) }
func (p *Printer) kw(text string) { p.tok(text, true) }
func (p *Printer) opt() {
	if p.gap < gOpt {
		p.gap = gOpt
	}
}
func (p *Printer) req() { p.gap = gReq }

// arrow writes a part of a relationship arrow
func (p *Printer) arrow(text string) {
	p.w(text)
	p.toks[len(p.toks)-1].Alts = arrowAlts[text]
}

var arrowAlts = map[string][]string{
	"-": {"\u00ad", "\u2010", "\u2011", "\u2012", "\u2013", "\u2014", "\u2015", "\u2212", "\ufe58", "\ufe63", "\uff0d"},
	"<": {"\u27e8", "\u3008", "\ufe64", "\uff1c"},
	">": {"\u27e9", "\u3009", "\ufe65", "\uff1e"},
}

// kws writes keywords with required whitespace between them
func (p *Printer) kws(text string) {
	for i, x := range strings.Fields(text) {
		if i > 0 {
			p.req()
		}
		p.kw(x)
	}
}

func isIdentByte(c byte) bool {
	return c == '_' || c == '$' || c >= 0x80 || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '.' || c == '`'
}

// canOmit returns true if the tokens a and b stay two tokens without
// whitespace between them
func canOmit(a, b string) bool {
	if a == "" || b == "" {
		return true
	}
	x, y := a[len(a)-1], b[0]
	if strings.IndexByte("()[]{},:;", x) >= 0 || strings.IndexByte("()[]{},:;", y) >= 0 {
		return true
	}
	if isIdentByte(x) && isIdentByte(y) {
		return false
	}
	quote := func(c byte) bool { return c == '\'' || c == '"' }
	if quote(x) || quote(y) {
		return !(quote(x) && quote(y))
	}
	if isIdentByte(x) || isIdentByte(y) {
		return true
	}
	return false
}

var spaces = []string{" ", " ", " ", "\t", "\n", "\r\n", "  ", " \n ", "\u00a0", "\u2003", "\u3000", "\v", "\f", "/* c */", "/**/", "// eol\n", " /* RETURN 1 */ ", "/* ' */", "// \"x\n", "\u001c", "\u2028", "/* é\n */"}

// Style decides how a token list becomes text
type Style struct {
	rng *rand.Rand // nil: canonical
}

func (s Style) text(toks []Tok) string {
	var b strings.Builder
	prev := ""
	for _, t := range toks {
		switch t.Gap {
		case gReq:
			if s.rng == nil {
				b.WriteString(" ")
			} else {
				b.WriteString(s.space())
			}
		case gOpt:
			omit := canOmit(prev, t.Text)
			if s.rng == nil {
				if !omit {
					b.WriteString(" ")
				}
			} else if !omit || s.rng.Intn(2) == 0 {
				sp := s.space()
				if strings.HasSuffix(prev, "/") && sp[0] == '/' {
					sp = " " + sp
				}
				b.WriteString(sp)
			}
		}
		text := t.Text
		if len(t.Alts) > 0 && s.rng != nil && s.rng.Intn(6) == 0 {
			text = t.Alts[s.rng.Intn(len(t.Alts))]
		}
		if t.KW && s.rng != nil {
			switch s.rng.Intn(4) {
			case 0:
				text = strings.ToLower(text)
			case 1:
				bs := []byte(text)
				for i := range bs {
					if s.rng.Intn(2) == 0 {
						bs[i] = strings.ToLower(string(bs[i]))[0]
					} else {
						bs[i] = strings.ToUpper(string(bs[i]))[0]
					}
				}
				text = string(bs)
			}
		}
		b.WriteString(text)
		prev = text
	}
	return b.String()
}

func (s Style) space() string {
	n := 1
	if s.rng.Intn(4) == 0 {
		n = 1 + s.rng.Intn(3)
	}
	out := ""
	for i := 0; i < n; i++ {
		out += spaces[s.rng.Intn(len(spaces))]
	}
	return out
}

// levels of the grammar
const (
	lvOr = iota
	lvXor
	lvAnd
	lvNot
	lvCmp
	lvAdd
	lvMul
	lvPow
	lvUnary
	lvPost
	lvProp
	lvAtom
)

func litNeg(v V) bool {
	switch t := v.(type) {
	case int:
		return t < 0
	case float64:
		return t < 0
	}
	return false
}

func exprLevel(e Expr) int {
	switch t := e.(type) {
	case Lit:
		if litNeg(t.V) {
			return lvUnary
		}
		return lvAtom
	case Prop:
		return lvProp
	case HasLabels:
		return lvProp
	case Un:
		return lvUnary
	case Bin:
		switch t.Op {
		case "^":
			return lvPow
		case "*", "/", "%":
			return lvMul
		}
		return lvAdd
	case Logic:
		switch t.Op {
		case "OR":
			return lvOr
		case "XOR":
			return lvXor
		}
		return lvAnd
	case Cmp:
		return lvCmp
	case Not:
		return lvNot
	case IsNull, In, StrOp, Index, Slice:
		return lvPost
	}
	return lvAtom
}

// expr prints e where the grammar expects the given level
func (p *Printer) expr(e Expr, level int) {
	if exprLevel(e) < level {
		p.w("(")
		p.opt()
		p.expr(e, lvOr)
		p.opt()
		p.w(")")
		return
	}
	switch t := e.(type) {
	case Lit:
		p.literal(t.V)
	case Raw:
		p.w(t.Text)
	case Paren:
		p.w("(")
		p.opt()
		p.expr(t.E, lvOr)
		p.opt()
		p.w(")")
	case Param:
		p.w("$" + name(t.Name))
	case Var:
		p.w(name(t.Name))
	case Prop:
		p.expr(t.E, lvProp)
		p.w(".")
		p.w(name(t.Key))
	case HasLabels:
		p.expr(t.E, lvAtom)
		p.labels(t.Labels)
	case Un:
		p.w(t.Op)
		p.opt()
		p.expr(t.E, lvUnary)
	case Bin:
		lv := exprLevel(e)
		p.expr(t.L, lv)
		p.opt()
		p.w(t.Op)
		p.opt()
		p.expr(t.R, lv+1)
	case Logic:
		lv := exprLevel(e)
		for i, x := range t.Parts {
			if i > 0 {
				p.req()
				p.kw(t.Op)
				p.req()
			}
			p.expr(x, lv+1)
		}
	case Not:
		p.kw("NOT")
		p.opt()
		p.expr(t.E, lvNot)
	case Cmp:
		p.expr(t.First, lvAdd)
		for _, c := range t.Rest {
			p.opt()
			p.w(c.Op)
			p.opt()
			p.expr(c.E, lvAdd)
		}
	case IsNull:
		p.expr(t.E, lvPost)
		p.req()
		if t.Neg {
			p.kws("IS NOT NULL")
		} else {
			p.kws("IS NULL")
		}
	case In:
		p.expr(t.L, lvPost)
		p.req()
		p.kw("IN")
		p.opt()
		p.expr(t.R, lvProp)
	case StrOp:
		p.expr(t.L, lvPost)
		p.req()
		p.kws(t.Op)
		p.opt()
		p.expr(t.R, lvProp)
	case Index:
		p.expr(t.L, lvPost)
		p.opt()
		p.w("[")
		p.expr(t.I, lvOr)
		p.w("]")
	case Slice:
		p.expr(t.L, lvPost)
		p.opt()
		p.w("[")
		if t.From != nil {
			p.expr(t.From, lvOr)
		}
		p.w("..")
		if t.To != nil {
			p.expr(t.To, lvOr)
		}
		p.w("]")
	case ListE:
		p.w("[")
		p.opt()
		for i, x := range t.Items {
			if i > 0 {
				p.opt()
				p.w(",")
				p.opt()
			}
			p.expr(x, lvOr)
		}
		p.opt()
		p.w("]")
	case MapE:
		p.mapLit(t)
	case Case:
		p.kw("CASE")
		if t.Test != nil {
			p.opt()
			p.expr(t.Test, lvOr)
		}
		for _, w := range t.Whens {
			p.opt()
			p.kw("WHEN")
			p.opt()
			p.expr(w.When, lvOr)
			p.opt()
			p.kw("THEN")
			p.opt()
			p.expr(w.Then, lvOr)
		}
		if t.Else != nil {
			p.opt()
			p.kw("ELSE")
			p.opt()
			p.expr(t.Else, lvOr)
		}
		p.opt()
		p.kw("END")
	case Func:
		p.w(t.Name)
		p.w("(")
		p.opt()
		for i, x := range t.Args {
			if i > 0 {
				p.opt()
				p.w(",")
				p.opt()
			}
			p.expr(x, lvOr)
		}
		p.opt()
		p.w(")")
	default:
		panic("harness: print")
	}
}

func (p *Printer) mapLit(t MapE) {
	p.w("{")
	p.opt()
	for i := range t.Keys {
		if i > 0 {
			p.opt()
			p.w(",")
			p.opt()
		}
		p.w(name(t.Keys[i]))
		p.opt()
		p.w(":")
		p.opt()
		p.expr(t.Vals[i], lvOr)
	}
	p.opt()
	p.w("}")
}

func (p *Printer) labels(ls []string) {
	for i, l := range ls {
		if i > 0 {
			p.opt()
		}
		p.w(":")
		p.opt()
		p.w(name(l))
	}
}

func plainName(s string) bool {
	if s == "" || (s[0] >= '0' && s[0] <= '9') {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) {
			return false
		}
	}
	_, reserved := reservedWords[strings.ToUpper(s)]
	return !reserved
}

var reservedWords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`ALL ASC ASCENDING BY CREATE DELETE DESC DESCENDING DETACH EXISTS LIMIT MATCH MERGE ON OPTIONAL ORDER REMOVE RETURN SET SKIP WHERE WITH UNION UNWIND AND AS CONTAINS DISTINCT ENDS IN IS NOT OR STARTS XOR FALSE TRUE NULL CONSTRAINT DO FOR REQUIRE UNIQUE CASE WHEN THEN ELSE END MANDATORY SCALAR OF ADD DROP CALL YIELD COUNT FILTER EXTRACT ANY NONE SINGLE`) {
		m[w] = true
	}
	return m
}()

func name(s string) string {
	if plainName(s) {
		return s
	}
	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
}

// literal prints a literal for the value
func (p *Printer) literal(v V) {
	pick := func(n int) int {
		if p.rng == nil {
			return 0
		}
		return p.rng.Intn(n)
	}
	switch t := v.(type) {
	case nil:
		p.kw("NULL")
	case bool:
		if t {
			p.kw("TRUE")
		} else {
			p.kw("FALSE")
		}
	case int:
		if t < 0 {
			p.w("-")
			p.opt()
			t = -t
		}
		switch pick(8) {
		case 1:
			p.w("0x" + strconv.FormatInt(int64(t), 16))
		case 2:
			p.w("0x" + strings.ToUpper(strconv.FormatInt(int64(t), 16)))
		case 3:
			p.w("0" + strconv.FormatInt(int64(t), 8))
		default:
			p.w(strconv.Itoa(t))
		}
	case float64:
		if t < 0 {
			p.w("-")
			p.opt()
			t = -t
		}
		p.w(floatText(t, pick(4)))
	case string:
		p.w(stringText(t, p.rng))
	case List:
		p.w("[")
		p.opt()
		for i, x := range t {
			if i > 0 {
				p.opt()
				p.w(",")
				p.opt()
			}
			p.literal(x)
		}
		p.opt()
		p.w("]")
	case Map:
		ks := make([]string, 0)
		for k := range t {
			ks = append(ks, k)
		}
		sortStrings(ks)
		m := MapE{}
		for _, k := range ks {
			m.Keys = append(m.Keys, k)
			m.Vals = append(m.Vals, Lit{t[k]})
		}
		p.mapLit(m)
	default:
		panic("harness: literal")
	}
}

func floatText(f float64, variant int) string {
	s := ""
	switch variant {
	case 1:
		s = strconv.FormatFloat(f, 'e', -1, 64)
	default:
		s = strconv.FormatFloat(f, 'f', -1, 64)
		if len(s) > 30 {
			s = strconv.FormatFloat(f, 'e', -1, 64)
		}
	}
	s = strings.Replace(s, "e+", "e", 1)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	if variant == 2 && strings.HasPrefix(s, "0.") {
		s = s[1:]
	}
	if variant == 3 {
		s = strings.Replace(s, "e", "E", 1)
	}
	return s
}

// stringText spells a string literal. Without rng, it is plain
func stringText(s string, rng *rand.Rand) string {
	q := byte('\'')
	if rng != nil && rng.Intn(2) == 0 {
		q = '"'
	}
	var b strings.Builder
	b.WriteByte(q)
	for _, c := range s {
		esc := rng != nil && rng.Intn(6) == 0
		switch {
		case c == '\\' || c == rune(q):
			b.WriteByte('\\')
			b.WriteRune(c)
		case esc && c < 0x10000:
			h := strconv.FormatInt(int64(c), 16)
			if rng.Intn(2) == 0 {
				h = strings.ToUpper(h)
			}
			for len(h) < 4 {
				h = "0" + h
			}
			b.WriteString(`\u` + h)
		case esc:
			h := strconv.FormatInt(int64(c), 16)
			for len(h) < 8 {
				h = "0" + h
			}
			b.WriteString(`\U` + h)
		case c == '\n' && rng != nil && rng.Intn(2) == 0:
			b.WriteString(`\n`)
		case c == '\t' && rng != nil && rng.Intn(2) == 0:
			b.WriteString(`\t`)
		case c == '\r' && rng != nil && rng.Intn(2) == 0:
			b.WriteString(`\r`)
		case c == '\b' && rng != nil && rng.Intn(2) == 0:
			b.WriteString(`\b`)
		case c == '\f' && rng != nil && rng.Intn(2) == 0:
			b.WriteString(`\F`)
		case (c == '\'' || c == '"') && esc:
			b.WriteByte('\\')
			b.WriteRune(c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

// exprText is the plain text of an expression
func exprText(e Expr) string {
	p := &Printer{}
	p.expr(e, lvOr)
	return Style{}.text(p.toks)
}
