package transforms

import (
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
)

//@ pool spaces dropped (bytes, i)
//@ vars s string; res []byte; i int
//@ inv 0 <= i && i <= len(s)
//@ inv str(res) + SpecDrop(s, i, 32) == SpecDrop(s, 0, 32)
//@ dec len(s) - i

//@ pool spaces dropped (bytes, K)
//@ vars s string; res []byte
//@ inv 0 <= K && K <= len(s)
//@ inv str(res) + SpecDrop(s, K, 32) == SpecDrop(s, 0, 32)

//@ pool spaces dropped (string, i)
//@ vars s string; res string; i int
//@ inv 0 <= i && i <= len(s)
//@ inv res + SpecDrop(s, i, 32) == SpecDrop(s, 0, 32)
//@ dec len(s) - i

//@ pool spaces dropped (string, K)
//@ vars s string; res string
//@ inv 0 <= K && K <= len(s)
//@ inv res + SpecDrop(s, K, 32) == SpecDrop(s, 0, 32)

//@ pool spaces dropped (builder, i)
//@ vars s string; res *strings.Builder; i int
//@ inv 0 <= i && i <= len(s)
//@ inv data(res) + SpecDrop(s, i, 32) == SpecDrop(s, 0, 32)
//@ dec len(s) - i

//@ pool spaces dropped (builder, K)
//@ vars s string; res *strings.Builder
//@ inv 0 <= K && K <= len(s)
//@ inv data(res) + SpecDrop(s, K, 32) == SpecDrop(s, 0, 32)

//@ pool NULs dropped (bytes, i)
//@ vars s string; res []byte; i int
//@ inv 0 <= i && i <= len(s)
//@ inv str(res) + SpecDrop(s, i, 0) == SpecDrop(s, 0, 0)
//@ dec len(s) - i

//@ pool NULs dropped (bytes, K)
//@ vars s string; res []byte
//@ inv 0 <= K && K <= len(s)
//@ inv str(res) + SpecDrop(s, K, 0) == SpecDrop(s, 0, 0)

//@ pool NULs dropped (string, i)
//@ vars s string; res string; i int
//@ inv 0 <= i && i <= len(s)
//@ inv res + SpecDrop(s, i, 0) == SpecDrop(s, 0, 0)
//@ dec len(s) - i

//@ pool NULs dropped (string, K)
//@ vars s string; res string
//@ inv 0 <= K && K <= len(s)
//@ inv res + SpecDrop(s, K, 0) == SpecDrop(s, 0, 0)

//@ pool NULs dropped (builder, i)
//@ vars s string; res *strings.Builder; i int
//@ inv 0 <= i && i <= len(s)
//@ inv data(res) + SpecDrop(s, i, 0) == SpecDrop(s, 0, 0)
//@ dec len(s) - i

//@ pool NULs dropped (builder, K)
//@ vars s string; res *strings.Builder
//@ inv 0 <= K && K <= len(s)
//@ inv data(res) + SpecDrop(s, K, 0) == SpecDrop(s, 0, 0)

//@ pool NULs swapped (bytes, i)
//@ vars s string; res []byte; i int
//@ inv 0 <= i && i <= len(s)
//@ inv str(res) + SpecSwap(s, i, 0, " ") == SpecSwap(s, 0, 0, " ")
//@ dec len(s) - i

//@ pool NULs swapped (bytes, K)
//@ vars s string; res []byte
//@ inv 0 <= K && K <= len(s)
//@ inv str(res) + SpecSwap(s, K, 0, " ") == SpecSwap(s, 0, 0, " ")

//@ pool NULs swapped (string, i)
//@ vars s string; res string; i int
//@ inv 0 <= i && i <= len(s)
//@ inv res + SpecSwap(s, i, 0, " ") == SpecSwap(s, 0, 0, " ")
//@ dec len(s) - i

//@ pool NULs swapped (string, K)
//@ vars s string; res string
//@ inv 0 <= K && K <= len(s)
//@ inv res + SpecSwap(s, K, 0, " ") == SpecSwap(s, 0, 0, " ")

//@ pool NULs swapped (builder, i)
//@ vars s string; res *strings.Builder; i int
//@ inv 0 <= i && i <= len(s)
//@ inv data(res) + SpecSwap(s, i, 0, " ") == SpecSwap(s, 0, 0, " ")
//@ dec len(s) - i

//@ pool NULs swapped (builder, K)
//@ vars s string; res *strings.Builder
//@ inv 0 <= K && K <= len(s)
//@ inv data(res) + SpecSwap(s, K, 0, " ") == SpecSwap(s, 0, 0, " ")

//@ pool spaces squeezed (bytes, i)
//@ vars s string; res []byte; i int; prev bool
//@ inv 0 <= i && i <= len(s)
//@ inv str(res) + SpecSqueeze(s, i, prev) == SpecSqueeze(s, 0, false)
//@ dec len(s) - i

//@ pool spaces squeezed (bytes, K)
//@ vars s string; res []byte; prev bool
//@ inv 0 <= K && K <= len(s)
//@ inv str(res) + SpecSqueeze(s, K, prev) == SpecSqueeze(s, 0, false)

//@ pool spaces squeezed (string, i)
//@ vars s string; res string; i int; prev bool
//@ inv 0 <= i && i <= len(s)
//@ inv res + SpecSqueeze(s, i, prev) == SpecSqueeze(s, 0, false)
//@ dec len(s) - i

//@ pool spaces squeezed (string, K)
//@ vars s string; res string; prev bool
//@ inv 0 <= K && K <= len(s)
//@ inv res + SpecSqueeze(s, K, prev) == SpecSqueeze(s, 0, false)

//@ pool spaces squeezed (builder, i)
//@ vars s string; res *strings.Builder; i int; prev bool
//@ inv 0 <= i && i <= len(s)
//@ inv data(res) + SpecSqueeze(s, i, prev) == SpecSqueeze(s, 0, false)
//@ dec len(s) - i

//@ pool spaces squeezed (builder, K)
//@ vars s string; res *strings.Builder; prev bool
//@ inv 0 <= K && K <= len(s)
//@ inv data(res) + SpecSqueeze(s, K, prev) == SpecSqueeze(s, 0, false)

// RemoveNulls: after any number of uses on other values and transactions the result is
// still that of the specification, for every input.
//@ client
//@ prop C02
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifRemoveNulls(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, s string) {
	t := NewTransRemoveNulls()
	vAssert(t.Trans(tr, s) == SpecDrop(s, 0, 0), "RemoveNulls: the first use gives the specified string")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		t.Trans(trs[i], ss[i])
	}
	vAssert(t.Trans(tr, s) == SpecDrop(s, 0, 0), "RemoveNulls: a use after any others gives the specified string")
}

// ReplaceNulls: after any number of uses on other values and transactions the result is
// still that of the specification, for every input.
//@ client
//@ prop C02
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifReplaceNulls(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, s string) {
	t := NewTransReplaceNulls()
	vAssert(t.Trans(tr, s) == SpecSwap(s, 0, 0, " "), "ReplaceNulls: the first use gives the specified string")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		t.Trans(trs[i], ss[i])
	}
	vAssert(t.Trans(tr, s) == SpecSwap(s, 0, 0, " "), "ReplaceNulls: a use after any others gives the specified string")
}

// RemoveWhitespace: after any number of uses on other values and transactions the result is
// still that of the specification, for every input.
//@ client
//@ prop C02
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifRemoveWhitespace(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, s string) {
	t := NewTransRemoveWhitespace()
	vAssert(t.Trans(tr, s) == SpecDrop(s, 0, ' '), "RemoveWhitespace: the first use gives the specified string")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		t.Trans(trs[i], ss[i])
	}
	vAssert(t.Trans(tr, s) == SpecDrop(s, 0, ' '), "RemoveWhitespace: a use after any others gives the specified string")
}

// CompressWhitespace: after any number of uses on other values and transactions the result is
// still that of the specification, for every input.
//@ client
//@ prop C02
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifCompressWhitespace(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, s string) {
	t := NewTransCompressWhitespace()
	vAssert(t.Trans(tr, s) == SpecSqueeze(s, 0, false), "CompressWhitespace: the first use gives the specified string")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		t.Trans(trs[i], ss[i])
	}
	vAssert(t.Trans(tr, s) == SpecSqueeze(s, 0, false), "CompressWhitespace: a use after any others gives the specified string")
}

// LowerCase: after any number of uses on other values and transactions the result is
// still that of the specification, for every input.
//@ client
//@ prop C02
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifLowerCase(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, s string) {
	t := NewTransLowerCase()
	vAssert(t.Trans(tr, s) == strings.ToLower(s), "LowerCase: the first use gives the specified string")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		t.Trans(trs[i], ss[i])
	}
	vAssert(t.Trans(tr, s) == strings.ToLower(s), "LowerCase: a use after any others gives the specified string")
}

// None: after any number of uses on other values and transactions the result is
// still that of the specification, for every input.
//@ client
//@ prop C02
//@ loop 1
//@ inv 0 <= i
//@ dec len(ss) - i
func verifNone(trs []*modsecurity.Transaction, ss []string, tr *modsecurity.Transaction, s string) {
	t := NewTransNone()
	vAssert(t.Trans(tr, s) == s, "None: the first use gives the specified string")
	for i := 0; i < len(ss) && i < len(trs); i++ {
		t.Trans(trs[i], ss[i])
	}
	vAssert(t.Trans(tr, s) == s, "None: a use after any others gives the specified string")
}
