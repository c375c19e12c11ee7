package pgsim

import "strings"

type tok struct {
	k byte // 'i' ident, 'q' quoted ident, 's' string, 'n' number, 'p' param, 'o' operator, 0 eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	n := len(src)
	isId := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
	}
	for i < n {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < n && src[i+1] == '-':
			for i < n && src[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < n && src[i+1] == '*':
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, pgErr("42601", "unterminated comment")
			}
			i += j + 4
		case c == '\'' || (c == 'E' || c == 'e') && i+1 < n && src[i+1] == '\'':
			esc := c != '\''
			if esc {
				i++
			}
			i++
			var b strings.Builder
			for {
				if i >= n {
					return nil, pgErr("42601", "unterminated quoted string")
				}
				if src[i] == '\'' {
					if i+1 < n && src[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				if esc && src[i] == '\\' && i+1 < n {
					i++
					switch src[i] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[i])
					}
					i++
					continue
				}
				b.WriteByte(src[i])
				i++
			}
			out = append(out, tok{'s', b.String()})
		case c == '"':
			var b strings.Builder
			i++
			for {
				if i >= n {
					return nil, pgErr("42601", "unterminated quoted identifier")
				}
				if src[i] == '"' {
					if i+1 < n && src[i+1] == '"' {
						b.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(src[i])
				i++
			}
			out = append(out, tok{'q', b.String()})
		case c == '$' && i+1 < n && src[i+1] >= '0' && src[i+1] <= '9':
			j := i + 1
			for j < n && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{'p', src[i+1 : j]})
			i = j
		case c >= '0' && c <= '9' || c == '.' && i+1 < n && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < n && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			if j < n && (src[j] == 'e' || src[j] == 'E') {
				k := j + 1
				if k < n && (src[k] == '-' || src[k] == '+') {
					k++
				}
				if k < n && src[k] >= '0' && src[k] <= '9' {
					for k < n && src[k] >= '0' && src[k] <= '9' {
						k++
					}
					j = k
				}
			}
			out = append(out, tok{'n', src[i:j]})
			i = j
		case isId(c):
			j := i
			for j < n && (isId(src[j]) || src[j] == '$') {
				j++
			}
			out = append(out, tok{'i', strings.ToLower(src[i:j])})
			i = j
		default:
			ops := []string{"->>", "#>>", "!~*", "::", "->", "#>", "@>", "<@", "?|", "?&", "||", "<=", ">=", "<>", "!=", "~*", "!~"}
			done := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{'o', o})
					i += len(o)
					done = true
					break
				}
			}
			if done {
				continue
			}
			if strings.IndexByte("+-*/%<>=(),.;[]?~:", c) >= 0 {
				out = append(out, tok{'o', string(c)})
				i++
				continue
			}
			return nil, pgErr("42601", "syntax error at or near %q", string(c))
		}
	}
	out = append(out, tok{0, ""})
	return out, nil
}
