//go:build go1.18

package main

import "strings"

// mangleText is what storage, transmission and typing do to a string with a
// checksum: wrong, swapped, lost, repeated or inserted characters, cut ends,
// lost case.
func mangleText(r *Run, s string) string {
	if s == "" {
		return s
	}
	t := r.T
	const al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl"
	b := []byte(s)
	i := t.Intn(len(b))
	switch t.Intn(8) {
	case 0, 1: // at the very end, where a checksum ends
		i = len(b) - 1 - t.Intn(minInt(3, len(b)))
	case 2:
		i = t.Intn(minInt(3, len(b)))
	}
	switch t.Intn(11) {
	case 0, 1: // one wrong character
		b[i] = al[t.Intn(len(al))]
		return string(b)
	case 2: // two neighbours swapped
		if i+1 < len(b) {
			b[i], b[i+1] = b[i+1], b[i]
		}
		return string(b)
	case 3: // a character lost
		return s[:i] + s[i+1:]
	case 4: // a character repeated
		return s[:i+1] + s[i:]
	case 5: // cut off
		return s[:i]
	case 6: // head lost
		return s[i:]
	case 7: // something appended
		return s + string(al[t.Intn(len(al))])
	case 8: // a byte that is not text
		b[i] = byte(t.Intn(256))
		return string(b)
	case 9: // two wrong characters
		b[i] = al[t.Intn(len(al))]
		b[t.Intn(len(b))] = al[t.Intn(len(al))]
		return string(b)
	default:
		if t.Chance(1, 2) {
			return strings.ToUpper(s[:i]) + s[i:]
		}
		return " " + s
	}
}
