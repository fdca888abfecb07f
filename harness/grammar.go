package main

import (
	_ "embed"
	"regexp"
	"strings"
	"unicode/utf8"
)

// An independent recognizer of the grammar (Earley), to decide if a
// text is a query. The grammar is the one of the openCypher project.

//go:embed cypher_reference.g4
var grammarText string

type gSym struct {
	name string // nonterminal, or "" for a terminal
	term string // token type: literal text in quotes, or name
}

type gRule struct {
	lhs string
	rhs []gSym
}

type Grammar struct {
	rules    map[string][]*gRule
	literals []string // longest first
	keywords map[string]bool
	nullable map[string]bool
	aux      int
	height   map[string]int
}

var cypherGrammar = func() *Grammar {
	g := loadGrammar(grammarText)
	g.height = g.heights() // not while goroutines use it
	return g
}()

// lexer rules with a definition of their own here
var tokenPatterns = []struct {
	name string
	re   *regexp.Regexp
}{
	{"EscapedChar", mustLongest(`\\([\\'"bBfFnNrRtT]|[uU][0-9a-fA-F]{4}|[uU][0-9a-fA-F]{8})`)},
	{"StringLiteral", mustLongest(`"([^"\\]|\\([\\'"bBfFnNrRtT]|[uU][0-9a-fA-F]{4}|[uU][0-9a-fA-F]{8}))*"|'([^'\\]|\\([\\'"bBfFnNrRtT]|[uU][0-9a-fA-F]{4}|[uU][0-9a-fA-F]{8}))*'`)},
	{"HexInteger", mustLongest(`0x[0-9a-fA-F]+`)},
	{"DecimalInteger", mustLongest(`0|[1-9][0-9]*`)},
	{"OctalInteger", mustLongest(`0[0-7]+`)},
	{"HexLetter", mustLongest(`[a-fA-F]`)},
	{"ExponentDecimalReal", mustLongest(`([0-9]+|[0-9]+\.[0-9]+|\.[0-9]+)[eE]-?[0-9]+`)},
	{"RegularDecimalReal", mustLongest(`[0-9]*\.[0-9]+`)},
	{"UnescapedSymbolicName", mustLongest(`[\p{L}\p{Nl}\p{Pc}][\p{L}\p{Nl}\p{Pc}\p{Nd}\p{Mn}\p{Mc}\p{Sc}·]*`)},
	{"EscapedSymbolicName", mustLongest("(`[^`]*`)+")},
	{"SP", mustLongest(`([ \t\n\v\f\r\x1c\x1d\x1e\x1f\x{1680}\x{180e}\x{2000}-\x{2006}\x{2008}-\x{200a}\x{2028}\x{2029}\x{205f}\x{3000}\x{a0}\x{2007}\x{202f}]|/\*([^*]|\*[^/])*\*/|//[^\n\r]*\r?(\n|\z))+`)},
}

func mustLongest(s string) *regexp.Regexp {
	re := regexp.MustCompile(`\A(?:` + s + `)`)
	re.Longest()
	return re
}

func loadGrammar(text string) *Grammar {
	g := &Grammar{rules: map[string][]*gRule{}, keywords: map[string]bool{}, nullable: map[string]bool{}}
	// tokens of the grammar file
	var toks []string
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case strings.HasPrefix(text[i:], "/*"):
			j := strings.Index(text[i:], "*/")
			i += j + 2
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '\'':
			j := i + 1
			for text[j] != '\'' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			toks = append(toks, text[i:j+1])
			i = j + 1
		case c == '[':
			j := i + 1
			for text[j] != ']' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			toks = append(toks, text[i:j+1])
			i = j + 1
		case strings.IndexByte(":;|()?*+~", c) >= 0:
			toks = append(toks, string(c))
			i++
		default:
			j := i
			for j < len(text) && (text[j] == '_' || text[j] >= '0' && text[j] <= '9' || text[j] >= 'A' && text[j] <= 'Z' || text[j] >= 'a' && text[j] <= 'z') {
				j++
			}
			if j == i {
				panic("harness: grammar file: " + text[i:i+10])
			}
			toks = append(toks, text[i:j])
			i = j
		}
	}
	lits := map[string]bool{}
	p := 0
	fresh := func() string {
		g.aux++
		return "#" + string(rune('A'+g.aux%26)) + strings.Repeat("'", g.aux/26)
	}
	add := func(lhs string, rhs []gSym) { g.rules[lhs] = append(g.rules[lhs], &gRule{lhs, rhs}) }
	var alts func(lhs string)
	seq := func() []gSym {
		var out []gSym
		for toks[p] != "|" && toks[p] != ")" && toks[p] != ";" {
			var s gSym
			t := toks[p]
			p++
			switch {
			case t == "(":
				n := fresh()
				alts(n)
				if toks[p] != ")" {
					panic("harness: grammar: ) expected, got " + toks[p])
				}
				p++
				s = gSym{name: n}
			case t[0] == '\'':
				l := unquoteG4(t)
				lits[l] = true
				s = gSym{term: "'" + l + "'"}
			case strings.HasPrefix(t, "oC_"):
				s = gSym{name: t}
			default:
				s = gSym{term: t}
			}
			switch toks[p] {
			case "?":
				p++
				n := fresh()
				add(n, nil)
				add(n, []gSym{s})
				s = gSym{name: n}
			case "*", "+":
				n := fresh()
				if toks[p] == "*" {
					add(n, nil)
				} else {
					add(n, []gSym{s})
				}
				p++
				add(n, []gSym{{name: n}, s})
				s = gSym{name: n}
			}
			out = append(out, s)
		}
		return out
	}
	alts = func(lhs string) {
		for {
			add(lhs, seq())
			if toks[p] != "|" {
				return
			}
			p++
		}
	}
	// skip "grammar Cypher;"
	p = 3
	for p < len(toks) {
		if toks[p] == "fragment" {
			p++
		}
		name := toks[p]
		if toks[p+1] != ":" {
			panic("harness: grammar: : expected after " + name)
		}
		p += 2
		if strings.HasPrefix(name, "oC_") {
			alts(name)
			p++
			continue
		}
		// lexer rule: keywords are sequences of ( 'A' | 'a' )
		word := ""
		q := p
		for ; toks[q] != ";"; q++ {
			if toks[q] == "(" && len(toks[q+1]) == 3 && toks[q+1][0] == '\'' && toks[q+2] == "|" {
				word += toks[q+1][1:2]
			}
		}
		if name == strings.ToUpper(name) && len(word) >= 2 && (word == name || "L_"+word == name) {
			g.keywords[word] = true
			if name != word {
				g.keywords[name] = false // written L_SKIP in rules
			}
		}
		p = q + 1
	}
	for l := range lits {
		g.literals = append(g.literals, l)
	}
	for changed := true; changed; {
		changed = false
		for n, rs := range g.rules {
			if g.nullable[n] {
				continue
			}
			for _, r := range rs {
				all := true
				for _, s := range r.rhs {
					if s.name == "" || !g.nullable[s.name] {
						all = false
					}
				}
				if all {
					g.nullable[n] = true
					changed = true
				}
			}
		}
	}
	return g
}

func unquoteG4(t string) string {
	t = t[1 : len(t)-1]
	if strings.HasPrefix(t, `\u`) {
		var c rune
		for _, d := range t[2:] {
			c *= 16
			switch {
			case d >= '0' && d <= '9':
				c += d - '0'
			case d >= 'a' && d <= 'f':
				c += d - 'a' + 10
			case d >= 'A' && d <= 'F':
				c += d - 'A' + 10
			}
		}
		return string(c)
	}
	return t
}

// lex splits a text into token types, false if it has no tokens
func (g *Grammar) lex(text string) ([]string, bool) {
	var out []string
	for text != "" {
		best, kind := 0, ""
		for _, l := range g.literals {
			if len(l) > best && strings.HasPrefix(text, l) {
				best, kind = len(l), "'"+l+"'"
			}
		}
		for _, tp := range tokenPatterns {
			if m := tp.re.FindString(text); len(m) > best {
				best, kind = len(m), tp.name
			}
		}
		if best == 0 {
			return nil, false
		}
		w := text[:best]
		if kind == "UnescapedSymbolicName" {
			u := asciiUpper(w)
			if g.keywords[u] {
				kind = u
				if _, ok := g.keywords["L_"+u]; ok {
					kind = "L_" + u
				}
			}
		}
		out = append(out, kind)
		text = text[best:]
	}
	return out, true
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

type earleyItem struct {
	r     *gRule
	dot   int
	start int
}

// derives decides if the tokens are a sentence of the nonterminal
func (g *Grammar) derives(start string, toks []string) bool {
	toks = append(append([]string{}, toks...), "EOF")
	sets := make([][]earleyItem, len(toks)+2)
	seen := make([]map[earleyItem]bool, len(toks)+2)
	for i := range seen {
		seen[i] = map[earleyItem]bool{}
	}
	add := func(i int, it earleyItem) {
		if !seen[i][it] {
			seen[i][it] = true
			sets[i] = append(sets[i], it)
		}
	}
	for _, r := range g.rules[start] {
		add(0, earleyItem{r, 0, 0})
	}
	for i := 0; i <= len(toks); i++ {
		for k := 0; k < len(sets[i]); k++ {
			it := sets[i][k]
			if it.dot == len(it.r.rhs) {
				for _, b := range sets[it.start] {
					if b.dot < len(b.r.rhs) && b.r.rhs[b.dot].name == it.r.lhs {
						add(i, earleyItem{b.r, b.dot + 1, b.start})
					}
				}
				continue
			}
			s := it.r.rhs[it.dot]
			if s.name != "" {
				for _, r := range g.rules[s.name] {
					add(i, earleyItem{r, 0, i})
				}
				if g.nullable[s.name] {
					add(i, earleyItem{it.r, it.dot + 1, it.start})
				}
			} else if i < len(toks) && toks[i] == s.term {
				add(i+1, earleyItem{it.r, it.dot + 1, it.start})
			}
		}
	}
	end := len(toks) - 1
	if start == "oC_Cypher" {
		end++
	}
	for _, it := range sets[end] {
		if it.r.lhs == start && it.start == 0 && it.dot == len(it.r.rhs) {
			return true
		}
	}
	return false
}

// isQuery decides if the text is a query. known is false if it has
// characters of which the class is not certain
func (g *Grammar) isQuery(text string) (is, known bool) { return g.is("oC_Cypher", text) }

func (g *Grammar) is(start, text string) (is, known bool) {
	if !utf8.ValidString(text) {
		return false, false
	}
	toks, ok := g.lex(text)
	if !ok {
		return false, true
	}
	if start != "oC_Cypher" {
		for len(toks) > 0 && toks[len(toks)-1] == "SP" {
			toks = toks[:len(toks)-1]
		}
	}
	return g.derives(start, toks), true
}

// ---- random sentences

func (g *Grammar) heights() map[string]int {
	h := map[string]int{}
	for changed := true; changed; {
		changed = false
		for n, rs := range g.rules {
			for _, r := range rs {
				if x, ok := ruleHeight(r, h); ok {
					if old, have := h[n]; !have || x < old {
						h[n] = x
						changed = true
					}
				}
			}
		}
	}
	g.height = h
	return h
}

func ruleHeight(r *gRule, h map[string]int) (int, bool) {
	max := 0
	for _, s := range r.rhs {
		if s.name != "" {
			x, ok := h[s.name]
			if !ok {
				return 0, false
			}
			if x > max {
				max = x
			}
		}
	}
	return max + 1, true
}

// sentence derives a random sentence as a list of token texts
func (g *Grammar) sentence(start string, depth int, pick func(n int) int, term func(kind string) string) []string {
	h := g.height
	var out []string
	var derive func(n string, d int)
	derive = func(n string, d int) {
		if len(out) > 140 {
			d = 0
		}
		if n == "oC_FunctionName" || n == "oC_SchemaName" || n == "oC_SymbolicName" || n == "oC_StandaloneCall" || n == "oC_ProcedureName" {
			if t := term(n); t != "" {
				out = append(out, t)
				return
			}
		}
		var ok []*gRule
		best := 1 << 30
		for _, r := range g.rules[n] {
			x, _ := ruleHeight(r, h)
			if x < best {
				best = x
			}
			if x <= d {
				ok = append(ok, r)
			}
		}
		if len(ok) == 0 {
			for _, r := range g.rules[n] {
				if x, _ := ruleHeight(r, h); x == best {
					ok = append(ok, r)
				}
			}
		}
		r := ok[pick(len(ok))]
		// optional white space
		if len(ok) > 1 && len(r.rhs) == 0 {
			for _, o := range ok {
				if len(o.rhs) == 1 && o.rhs[0].term == "SP" && pick(12) > 0 {
					r = o
				}
			}
		}
		// the chain of expression levels is not worth the depth, and its
		// operators are taken rarely
		if strings.HasPrefix(n, "#") && len(r.rhs) == 2 && r.rhs[0].name == n && pick(3) == 0 {
			for _, o := range ok {
				if len(o.rhs) == 0 {
					r = o
				}
			}
		}
		for _, s := range r.rhs {
			if s.name != "" {
				derive(s.name, d-1)
			} else if s.term[0] == '\'' {
				out = append(out, s.term[1:len(s.term)-1])
			} else if s.term != "EOF" {
				out = append(out, term(s.term))
			}
		}
	}
	derive(start, depth)
	return out
}
