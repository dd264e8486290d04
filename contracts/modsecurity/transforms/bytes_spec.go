package transforms

// SpecDrop is s[i:] without the bytes c.
func SpecDrop(s string, i int, c byte) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == c {
		return SpecDrop(s, i+1, c)
	}
	return s[i:i+1] + SpecDrop(s, i+1, c)
}

// SpecSwap is s[i:] with every byte c made d.
func SpecSwap(s string, i int, c byte, d string) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == c {
		return d + SpecSwap(s, i+1, c, d)
	}
	return s[i:i+1] + SpecSwap(s, i+1, c, d)
}

// SpecSqueeze is s[i:] with every run of spaces made one space; prev tells
// whether a space comes just before.
func SpecSqueeze(s string, i int, prev bool) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == ' ' {
		if prev {
			return SpecSqueeze(s, i+1, true)
		}
		return " " + SpecSqueeze(s, i+1, true)
	}
	return s[i:i+1] + SpecSqueeze(s, i+1, false)
}
