package libacc

import (
	"strings"

	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// Long makes long scripts of several shapes. A '#' is an arbitrary digit and a
// '@' an arbitrary letter of a to f.
func Long() string {
	var s string
	digits := "0123456789"
	name := func(k int) string { return "v" + digits[k/10:k/10+1] + digits[k%10:k%10+1] }
	switch nd.Choose("long", 14) {
	case 0: // many statements
		s = "v00 = 2*1\n"
		for k := 1; k < 20; k++ {
			s += name(k) + " = " + name(k-1) + " + " + name(k/2) + "\n"
		}
		s += "return v1# + v07\n"
	case 1: // long sums
		s = "a = 1 + 1\nreturn 1" + strings.Repeat(" + a", 9) + " + [#]" + strings.Repeat(" + 1", 9) + " + [1#]"
	case 2: // nesting to the left
		s = "return " + strings.Repeat("(", 14) + "1 + 1" + strings.Repeat(") + 1", 13) + ") << #"
	case 3: // nesting to the right
		s = "return " + strings.Repeat("1 + (", 14) + "1 + [#]" + strings.Repeat(")", 14)
	case 4: // nested doublings and shifts
		s = "return " + strings.Repeat("2*(", 8) + strings.Repeat("(", 8) + "1" + strings.Repeat(" << 1)", 7) + " << #" + ")" + strings.Repeat(")", 8)
	case 5: // long names with one difference
		n := strings.Repeat("abcdef", 12)
		s = n + "a = 1 + 1\n" + n + "b = 1 + [1]\n" + n + "@ = 1 + [2]\nreturn 1 + " + n + "@\n"
	case 6: // long literals
		s = "return (1 << 000000000000000000000000000000001#) + [0x0000000000000000000000000000000000#]"
	case 7: // long shifts
		s = "a = 1 << 1#0\nb = a + [9#]\nreturn b + [17]\n"
	case 8: // redefinition far apart
		s = "v00 = 1 + 1\n"
		for k := 1; k < 12; k++ {
			s += name(k) + " = " + name(k-1) + "\n"
		}
		s += "v0# = v05\nreturn v0# + 1\n"
	case 9: // names far apart
		s = "@a = 1 + 1\nb@ = 1 << 3\naa = aa + @a\nreturn bb\n"
	case 10: // blanks
		s = strings.Repeat(" ", 40) + "return" + strings.Repeat("\t", 30) + "1" + strings.Repeat(" ", 50) + "<<" + strings.Repeat(" \t\r", 20) + "#" + strings.Repeat(" ", 40) + "\n"
	case 11: // mixed depth
		s = "a = (((1 + 1) << 2) + 2*(1 + [6])) << 3\nc = a + (2*a + (a << 1))\nreturn ((c + a) << #) + 2*([1#])\n"
	case 12: // aliases
		s = "a = 1\nb = a\nc = [#]\nd = b + c\ne = d\nreturn e + [#]"
	case 13: // the largest indexes
		s = "return 1 + [######################]"
		if nd.Choose("digits", 2) == 1 {
			s = "return 1 + [9##]"
		}
		s = strings.Replace(s, "######################", "922337203685477580#", 1)
	}
	b := []byte(s)
	for k, c := range b {
		switch c {
		case '#':
			b[k] = byte(nd.Int("digit", '0', '9'))
		case '@':
			b[k] = byte(nd.Int("letter", 'a', 'f'))
		}
	}
	return string(b)
}
