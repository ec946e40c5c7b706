//go:build go1.22

package simsql

import "strings"

type tok struct {
	k byte // i: word, q: backquoted name, s: string, n: number, or the character itself; 0: end
	v string
}

// lex splits a statement into tokens as MySQL does (default sql_mode).
func lex(s string) ([]tok, *SQLError) {
	var l []tok
	bad := func(i int) *SQLError {
		return Err(1064, "42000", "You have an error in your SQL syntax; check the manual that corresponds to your MySQL server version for the right syntax to use near '%s'", clip(s[i:]))
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v':
			i++
		case c == '#' || c == '-' && strings.HasPrefix(s[i:], "--") && (i+2 >= len(s) || s[i+2] <= ' '):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*!"):
			j := i + 3
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			k := strings.Index(s[j:], "*/")
			if k < 0 {
				return nil, bad(i)
			}
			in, err := lex(s[j : j+k])
			if err != nil {
				return nil, err
			}
			l = append(l, in[:len(in)-1]...)
			i = j + k + 2
		case strings.HasPrefix(s[i:], "/*"):
			k := strings.Index(s[i+2:], "*/")
			if k < 0 {
				return nil, bad(i)
			}
			i += 2 + k + 2
		case c == '`':
			v, n, ok := quoted(s[i:])
			if !ok || v == "" {
				return nil, bad(i)
			}
			l = append(l, tok{'q', v})
			i += n
		case c == '\'' || c == '"':
			v, n, ok := quoted(s[i:])
			if !ok {
				return nil, bad(i)
			}
			if k := len(l); k > 0 && l[k-1].k == 's' {
				l[k-1].v += v // adjacent strings are one
			} else {
				l = append(l, tok{'s', v})
			}
			i += n
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < len(s) && (s[k] == '-' || s[k] == '+') {
					k++
				}
				m := k
				for k < len(s) && s[k] >= '0' && s[k] <= '9' {
					k++
				}
				if k > m {
					j = k
				}
			}
			if j < len(s) && wordByte(s[j]) {
				for j < len(s) && wordByte(s[j]) {
					j++
				}
				l = append(l, tok{'i', s[i:j]})
			} else {
				l = append(l, tok{'n', s[i:j]})
			}
			i = j
		case wordByte(c):
			j := i
			for j < len(s) && wordByte(s[j]) {
				j++
			}
			l = append(l, tok{'i', s[i:j]})
			i = j
		case strings.IndexByte("(),;=.+-@", c) >= 0:
			l = append(l, tok{c, s[i : i+1]})
			i++
		default:
			return nil, bad(i)
		}
	}
	return append(l, tok{}), nil
}

func wordByte(c byte) bool {
	return c == '_' || c == '$' || c >= 0x80 || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// quoted reads a quoted token at the start of s.
func quoted(s string) (v string, n int, ok bool) {
	q := s[0]
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == q:
			if i+1 < len(s) && s[i+1] == q {
				i++
				b.WriteByte(q)
				continue
			}
			return b.String(), i + 1, true
		case s[i] == '\\' && q != '`':
			i++
			if i >= len(s) {
				return "", 0, false
			}
			switch c := s[i]; c {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case '0':
				b.WriteByte(0)
			case 'b':
				b.WriteByte(8)
			case 'Z':
				b.WriteByte(26)
			case '%', '_':
				b.WriteByte('\\')
				b.WriteByte(c)
			default:
				b.WriteByte(c)
			}
		default:
			b.WriteByte(s[i])
		}
	}
	return "", 0, false
}

// Split cuts a script into its statements as the mysql client does. A last
// statement without its semicolon is returned too.
func Split(s string) (l []string) {
	start := 0
	flush := func(end int) {
		t := strings.TrimSpace(s[start:end])
		if toks, err := lex(t); t != "" && (err != nil || len(toks) > 1) {
			l = append(l, t)
		}
	}
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '\'' || c == '"' || c == '`':
			_, n, ok := quoted(s[i:])
			if !ok {
				flush(len(s))
				return
			}
			i += n
		case c == '#' || strings.HasPrefix(s[i:], "-- "):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			k := strings.Index(s[i:], "*/")
			if k < 0 {
				flush(len(s))
				return
			}
			i += k + 2
		case c == ';':
			flush(i)
			i++
			start = i
		default:
			i++
		}
	}
	flush(len(s))
	return
}

// quote writes a string literal as SHOW CREATE TABLE does.
func quote(s string) string {
	var b strings.Builder
	b.WriteByte('\'')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\'':
			b.WriteString("''")
		case '\\':
			b.WriteString("\\\\")
		case '\n':
			b.WriteString("\\n")
		case '\r':
			b.WriteString("\\r")
		case 0:
			b.WriteString("\\0")
		default:
			b.WriteByte(s[i])
		}
	}
	b.WriteByte('\'')
	return b.String()
}

func bq(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }
