package modsecurity

import (
	"bytes"
	"os"
)

func vAssert(c bool, what string)                 {}
func vAssume(c bool)                              {}
func vReach(what string)                          {}
func vDataBuf(b *bytes.Buffer) string             { return "" }
func vDataFile(f *os.File) string                 { return "" }
func vDataReader(r *bytes.Reader) string          { return "" }
func vPosFile(f *os.File) int                     { return 0 }
func vPosReader(r *bytes.Reader) int              { return 0 }
func vIOFailed() bool                             { return false }
func vDistinct(a, b interface{}) bool             { return true }
func vEventPtr(kind int, of *SecRule) interface{} { return nil }
func vLog() []interface{}                         { return nil }
func vLogIs(more []interface{}) bool              { return true }
