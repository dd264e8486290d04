package seclang

func vAssert(c bool, what string)     {}
func vAssume(c bool)                  {}
func vReach(what string)              {}
func vLog() []interface{}             { return nil }
func vLogIs(more []interface{}) bool  { return true }
