// Scenario functions over the public API, verified against contracts/72_misc.spec.
package pairwise

func lemmaEncode(salt []byte, sector, subject string) (string, error) {
	return Hash(salt).Encode(sector, subject)
}

func lemmaStable(salt []byte, sector, subject, other string) (a, b, c string, errA, errB, errC error) {
	e := Hash(salt)
	a, errA = e.Encode(sector, subject)
	c, errC = e.Encode(other, subject)
	b, errB = e.Encode(sector, subject)
	return a, b, c, errA, errB, errC
}
