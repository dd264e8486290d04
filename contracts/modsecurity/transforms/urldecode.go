package transforms

import (
	"github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/utils"
)

//@ client
//@ prop C01
func verifUrlDecode(tr *modsecurity.Transaction, s string) {
	t := NewTransUrlDecode()
	vAssert(t.Trans(tr, s) == utils.SpecDecode(s, 0, false), "urlDecode returns the decoding of its input")
	vAssert(NewTransUrlDecodeUni().Trans(tr, s) == utils.SpecDecode(s, 0, true), "urlDecodeUni returns the decoding of its input")
}
