package ridl

import "github.com/webrpc/webrpc/internal/vsym"

// vhLex checks every token of one source text against the text itself.
func vhLex(src string) {
	text := []rune(src)
	lx := newLexer(src)
	pos, line, col := 0, 1, 0
	ended := false
	n := 0
	for tok := range lx.tokens {
		if ended {
			vsym.Fail("token after the end token")
		}
		if tok.tt == tokenEOF {
			ended = true
			if tok.val != "" {
				vsym.Fail("end token has a text")
			}
			if pos != len(text) {
				vsym.Fail("lexer stopped before the end of the text")
			}
			continue
		}
		val := []rune(tok.val)
		if len(val) == 0 {
			vsym.Fail("empty token")
		}
		if pos+len(val) > len(text) {
			vsym.Fail("tokens are longer than the text")
		}
		eq := true
		for i := range val {
			eq = vsym.And(eq, val[i] == text[pos+i])
		}
		vsym.Assert(eq, "token text differs from the source")
		// kind
		want, size := vhKind(text[pos:])
		vsym.Assert(tok.tt == want, "token kind does not fit its text")
		vsym.Assert(len(val) == size, "token has the wrong extent")
		// position of the last character
		for i := 0; i < len(val); i++ {
			col++
			if text[pos+i] == '\n' {
				if i != len(val)-1 {
					vsym.Fail("newline inside a token")
				}
			}
		}
		vsym.Assert(tok.line == line, "token has the wrong line")
		vsym.Assert(tok.col == col, "token has the wrong column")
		pos += len(val)
		if text[pos-1] == '\n' {
			line++
			col = 0
		}
		n++
	}
	if !ended {
		vsym.Fail("no end token")
	}
	vsym.Observe("tokens", n)
}

// vhKind is the kind and length of the first token of a text.
func vhKind(t []rune) (tokenType, int) {
	switch t[0] {
	case ' ', '\t', '\r':
		n := 1
		for n < len(t) && (t[n] == ' ' || t[n] == '\t' || t[n] == '\r') {
			n++
		}
		return tokenWhitespace, n
	case '\n':
		return tokenNewLine, 1
	case '=':
		if len(t) > 1 && t[1] == '>' {
			return tokenRocket, 2
		}
		return tokenEqual, 1
	case '(':
		return tokenOpenParen, 1
	case ')':
		return tokenCloseParen, 1
	case '[':
		return tokenOpenBracket, 1
	case ']':
		return tokenCloseBracket, 1
	case '<':
		return tokenOpenAngleBracket, 1
	case '>':
		return tokenCloseAngleBracket, 1
	case '+':
		return tokenPlusSign, 1
	case '-':
		return tokenMinusSign, 1
	case '#':
		return tokenHash, 1
	case ':':
		return tokenColon, 1
	case ',':
		return tokenComma, 1
	case '|':
		return tokenBar, 1
	case '\\':
		return tokenBackslash, 1
	case '/':
		return tokenSlash, 1
	case '"':
		return tokenQuote, 1
	case '.':
		return tokenDot, 1
	case '?':
		return tokenQuestionMark, 1
	case '@':
		return tokenAt, 1
	}
	c := t[0]
	if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
		n := 1
		for n < len(t) && !vhBreak(t[n]) {
			n++
		}
		return tokenWord, n
	}
	return tokenExtra, 1
}

func vhBreak(c rune) bool {
	switch c {
	case 0, ' ', '\t', '\r', '\n', '[', ']', '(', ')', '<', '>', '{', '}', '=', ':', '¿', '?', '¡', '!', ',', '"':
		return true
	}
	return false
}

// VH_LexAny: every text of the given number of bytes.
func VH_LexAny() {
	n := 3
	if vsym.Tier() > 0 {
		n = 4
	}
	vhLex(vsym.Str(vsym.Pick(n + 1)))
}

// VH_LexShape: longer texts over one representative of each class that
// interacts with its neighbours.
func VH_LexShape() {
	n := 6
	if vsym.Tier() > 0 {
		n = 8
	}
	vhLex(vsym.StrIn(n, "a=> \n.\x00"))
}

// VH_LexLines: positions over many lines.
func VH_LexLines() {
	n := 9
	if vsym.Tier() > 0 {
		n = 11
	}
	vhLex(vsym.StrIn(n, "a \n"))
}
