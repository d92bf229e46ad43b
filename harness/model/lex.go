// Package model is an independent reading of the SQL subset that ddlctl handles: a tokenizer, a
// reader for schemas and migrations, and an executor of migrations over a schema value. It shares
// no code with ddlctl.
package model

import (
	"fmt"
	"strings"
)

type Dialect string

const (
	PG Dialect = "postgres"
	MY Dialect = "mysql"
	CR Dialect = "cockroachdb"
	SP Dialect = "spanner"
)

var Dialects = []Dialect{PG, MY, CR, SP}

// Tok kinds: 'w' word, 'q' quoted identifier, 's' string literal, 'p' punctuation, 0 end.
type Tok struct {
	Kind byte
	S    string // word as written, identifier without quotes, literal with its quotes, punctuation
	Raw  string
	Pos  int
}

func (t Tok) Is(kw string) bool { return t.Kind == 'w' && strings.EqualFold(t.S, kw) }

func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'
}

// Lex splits s into tokens; comments and white space vanish.
func Lex(d Dialect, s string) ([]Tok, error) {
	var ts []Tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for {
				if j >= len(s) {
					return nil, fmt.Errorf("unterminated quote at %d in %q", i, s)
				}
				if s[j] == '\\' && c != '`' && (d == MY || d == SP) && j+1 < len(s) {
					j += 2
					continue
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			raw := s[i : j+1]
			if c == '`' || c == '"' && (d == PG || d == CR) {
				ts = append(ts, Tok{'q', raw[1 : len(raw)-1], raw, i})
			} else {
				ts = append(ts, Tok{'s', "'" + raw[1:len(raw)-1] + "'", raw, i})
			}
			i = j + 1
		case isWord(c):
			j := i
			for j < len(s) && isWord(s[j]) {
				j++
			}
			ts = append(ts, Tok{'w', s[i:j], s[i:j], i})
			i = j
		default:
			p := string(c)
			for _, m := range operators {
				if strings.HasPrefix(s[i:], m) {
					p = m
					break
				}
			}
			ts = append(ts, Tok{'p', p, p, i})
			i += len(p)
		}
	}
	return ts, nil
}

// operators of several characters, the longer ones first.
var operators = []string{"!~~*", "!~~", "!~*", "->>", "#>>", "~~*", "<=>", ":::", "::", "||", ">=", "<=", "<>", "!=", "!~", "~*", "~~", "->", "#>", "#-", "@>", "<@", "@@", "&&", "?|", "?&", "<<", ">>"}
