package modsecurity

// SpecTrans is the value after the transformations ts[i:], in order.
func SpecTrans(ts []Trans, tr *Transaction, s string, i int) string {
	if i >= len(ts) {
		return s
	}
	return SpecTrans(ts, tr, ts[i].Trans(tr, s), i+1)
}

// SpecTransAll is vs[i:] with every value transformed.
func SpecTransAll(ts []Trans, tr *Transaction, vs []string, i int) []string {
	if i >= len(vs) {
		return nil
	}
	return append([]string{SpecTrans(ts, tr, vs[i], 0)}, SpecTransAll(ts, tr, vs, i+1)...)
}

// SpecHit: some value of vs[i:] is accepted by the operator (rejected, when negated).
func SpecHit(o Operator, not bool, tr *Transaction, vs []string, i int) bool {
	if i >= len(vs) {
		return false
	}
	if o.Match(tr, vs[i]) != not {
		return true
	}
	return SpecHit(o, not, tr, vs, i+1)
}

// SpecHeld: an abort is always held by a disruptive intervention.
func SpecHeld(t *Transaction) bool {
	return !t.Abort || t.intervention != nil && t.intervention.Disruptive
}
