package variables

import "strings"

// lib_strings_Split is what the package strings documents, for a separator that is not empty.
func lib_strings_Split(s, sep string) []string {
	i := strings.Index(s, sep)
	if i < 0 {
		return []string{s}
	}
	return append([]string{s[:i]}, lib_strings_Split(s[i+len(sep):], sep)...)
}
