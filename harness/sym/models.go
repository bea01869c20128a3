package sym

import (
	"encoding/base64"
	"strconv"
	"unicode/utf8"
)

// MarshalModel stands for encoding/json.Marshal of the simplest types, whose
// implementation goes through reflection and unsafe pointers.
func MarshalModel(v interface{}) (b []byte, ok bool) {
	switch x := v.(type) {
	case nil:
		return []byte("null"), true
	case bool:
		return strconv.AppendBool(nil, x), true
	case int:
		return strconv.AppendInt(nil, int64(x), 10), true
	case int64:
		return strconv.AppendInt(nil, x, 10), true
	case string:
		return marshalString(nil, x), true
	case []byte:
		if x == nil {
			return []byte("null"), true
		}
		return []byte(`"` + base64.StdEncoding.EncodeToString(x) + `"`), true
	case []string:
		if x == nil {
			return []byte("null"), true
		}
		b = append(b, '[')
		for i, s := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = marshalString(b, s)
		}
		return append(b, ']'), true
	}
	return nil, false
}

const hexDigits = "0123456789abcdef"

func marshalString(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		if c := s[i]; c < utf8.RuneSelf {
			i++
			switch c {
			case '"', '\\':
				b = append(b, '\\', c)
			case '\b':
				b = append(b, '\\', 'b')
			case '\f':
				b = append(b, '\\', 'f')
			case '\n':
				b = append(b, '\\', 'n')
			case '\r':
				b = append(b, '\\', 'r')
			case '\t':
				b = append(b, '\\', 't')
			default:
				if c < ' ' || c == '<' || c == '>' || c == '&' {
					b = append(b, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&15])
				} else {
					b = append(b, c)
				}
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			b = append(b, "\ufffd"...)
		case r == '\u2028' || r == '\u2029':
			b = append(b, '\\', 'u', '2', '0', '2', hexDigits[r&15])
		default:
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return append(b, '"')
}
