package kit

import "verifharness/sym"

// Sizes are lengths around which buffers of the library and of the code end.
var Sizes = []int{64, 513, 1025, 4096, 4097, 32769, 70000, 32768, 65536}

// Long is a text of n letters, digits and spaces of which three are symbolic: the first, the last and one between.
func Long(name string, n int) string { return LongOf(name, n, "a-z") }

// LongOf is Long with the symbolic letters among few.
func LongOf(name string, n int, few string) string {
	const letters = "the quick brown fox 0123456789 jumps over "
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[i%len(letters)]
	}
	s := sym.Text(name, 3, few)
	b[0], b[n/2], b[n-1] = s[0], s[1], s[2]
	return string(b)
}

// SameText compares texts that are mostly concrete.
func SameText(a, b string) bool { return Same(a, b, false) }

// Blob is n bytes of text lines in which the bytes at both ends, in the middle and around the ends of the
// usual buffers are symbolic.
func Blob(name string, n int) string {
	const letters = "the quick brown fox 0123456789 jumps over\n"
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[i%len(letters)]
	}
	at := []int{0, 1, 511, 512, 1023, 1024, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536, n/2 - 1, n / 2, n - 2, n - 1}
	s := sym.String(name, len(at))
	for i, k := range at {
		if k >= 0 && k < n {
			b[k] = s[i]
		}
	}
	return string(b)
}
