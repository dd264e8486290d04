package transforms

func vAssert(c bool, what string) {}
func vAssume(c bool)              {}
func vReach(what string)          {}
