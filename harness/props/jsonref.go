package props

// A JSON parser written from the grammar (RFC 8259).

type jnode struct {
	kind  byte // n t f 0 s [ {
	text  string
	items []jnode
	keys  []string
}

type jparser struct {
	s   string
	pos int
	ok  bool
}

func parseJSON(s string) (jnode, bool) {
	p := &jparser{s: s, ok: true}
	n := p.value()
	p.space()
	return n, p.ok && p.pos == len(s)
}

func (p *jparser) fail() jnode { p.ok = false; return jnode{} }

func (p *jparser) space() {
	for p.pos < len(p.s) {
		c := p.s[p.pos]
		if c != ' ' && c != '\t' && c != '\n' && c != '\r' {
			return
		}
		p.pos++
	}
}

func (p *jparser) peek() byte {
	if p.pos < len(p.s) {
		return p.s[p.pos]
	}
	return 0
}

func (p *jparser) eat(c byte) bool {
	if p.pos < len(p.s) && p.s[p.pos] == c {
		p.pos++
		return true
	}
	return false
}

func (p *jparser) word(w string) bool {
	if len(p.s)-p.pos >= len(w) && p.s[p.pos:p.pos+len(w)] == w {
		p.pos += len(w)
		return true
	}
	return false
}

func (p *jparser) value() jnode {
	p.space()
	switch p.peek() {
	case 'n':
		if p.word("null") {
			return jnode{kind: 'n'}
		}
	case 't':
		if p.word("true") {
			return jnode{kind: 't'}
		}
	case 'f':
		if p.word("false") {
			return jnode{kind: 'f'}
		}
	case '"':
		return jnode{kind: 's', text: p.str()}
	case '[':
		return p.list()
	case '{':
		return p.object()
	default:
		return p.number()
	}
	return p.fail()
}

func (p *jparser) list() jnode {
	p.pos++
	n := jnode{kind: '['}
	p.space()
	if p.eat(']') {
		return n
	}
	for p.ok {
		n.items = append(n.items, p.value())
		p.space()
		if p.eat(']') {
			return n
		}
		if !p.eat(',') {
			return p.fail()
		}
	}
	return n
}

func (p *jparser) object() jnode {
	p.pos++
	n := jnode{kind: '{'}
	p.space()
	if p.eat('}') {
		return n
	}
	for p.ok {
		p.space()
		if p.peek() != '"' {
			return p.fail()
		}
		n.keys = append(n.keys, p.str())
		p.space()
		if !p.eat(':') {
			return p.fail()
		}
		n.items = append(n.items, p.value())
		p.space()
		if p.eat('}') {
			return n
		}
		if !p.eat(',') {
			return p.fail()
		}
	}
	return n
}

func digit(c byte) bool { return c-'0' <= 9 }

func (p *jparser) digits() bool {
	start := p.pos
	for p.pos < len(p.s) && digit(p.s[p.pos]) {
		p.pos++
	}
	return p.pos > start
}

func (p *jparser) number() jnode {
	start := p.pos
	p.eat('-')
	if !p.eat('0') && !p.digits() {
		return p.fail()
	}
	if p.eat('.') && !p.digits() {
		return p.fail()
	}
	if p.eat('e') || p.eat('E') {
		if !p.eat('+') {
			p.eat('-')
		}
		if !p.digits() {
			return p.fail()
		}
	}
	return jnode{kind: '0', text: p.s[start:p.pos]}
}

func (p *jparser) hex4() rune {
	if p.pos+4 > len(p.s) {
		p.ok = false
		return 0
	}
	var r rune
	for i := 0; i < 4; i++ {
		c := p.s[p.pos]
		p.pos++
		switch {
		case digit(c):
			r = r*16 + rune(c-'0')
		case c-'a' < 6:
			r = r*16 + rune(c-'a') + 10
		case c-'A' < 6:
			r = r*16 + rune(c-'A') + 10
		default:
			p.ok = false
			return 0
		}
	}
	return r
}

// str reads a string; bytes that are no valid UTF-8 make the document
// malformed.
func (p *jparser) str() string {
	p.pos++
	var out []byte
	for {
		if p.pos >= len(p.s) {
			p.ok = false
			return ""
		}
		c := p.s[p.pos]
		if c < ' ' {
			p.ok = false
			return ""
		}
		if c == '"' {
			p.pos++
			return string(out)
		}
		if c == '\\' {
			p.pos++
			e := p.peek()
			p.pos++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r := p.hex4()
				if r >= 0xd800 && r < 0xdc00 && p.word("\\u") {
					lo := p.hex4()
					if lo < 0xdc00 || lo > 0xdfff {
						p.ok = false
						return ""
					}
					r = 0x10000 + (r-0xd800)<<10 + lo - 0xdc00
				} else if r >= 0xd800 && r < 0xe000 {
					p.ok = false
					return ""
				}
				out = append(out, string(r)...)
			default:
				p.ok = false
				return ""
			}
			continue
		}
		n := runeLen(p.s[p.pos:])
		if n == 0 {
			p.ok = false
			return ""
		}
		out = append(out, p.s[p.pos:p.pos+n]...)
		p.pos += n
	}
}

// runeLen is the length of the UTF-8 sequence at the start of s, or 0.
func runeLen(s string) int {
	c := s[0]
	cont := func(i int, lo, hi byte) bool { return i < len(s) && s[i] >= lo && s[i] <= hi }
	switch {
	case c < 0x80:
		return 1
	case c >= 0xc2 && c <= 0xdf:
		if cont(1, 0x80, 0xbf) {
			return 2
		}
	case c >= 0xe0 && c <= 0xef:
		lo, hi := byte(0x80), byte(0xbf)
		if c == 0xe0 {
			lo = 0xa0
		}
		if c == 0xed {
			hi = 0x9f
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xbf) {
			return 3
		}
	case c >= 0xf0 && c <= 0xf4:
		lo, hi := byte(0x80), byte(0xbf)
		if c == 0xf0 {
			lo = 0x90
		}
		if c == 0xf4 {
			hi = 0x8f
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) {
			return 4
		}
	}
	return 0
}

// validText is s with every byte that is not part of a valid sequence
// replaced by U+FFFD.
func validText(s string) string {
	var out []byte
	for len(s) > 0 {
		n := runeLen(s)
		if n == 0 {
			out = append(out, 0xef, 0xbf, 0xbd)
			n = 1
		} else {
			out = append(out, s[:n]...)
		}
		s = s[n:]
	}
	return string(out)
}
