property = 'C32'
needs = 'two subjects that differ in letter case only'
breaks = 'subjects that differ in case only get the same pairwise identifier'
edits = [('sdk/pairwise/hash.go', '\tsubject = strings.TrimSpace(subject)', '\tsubject = strings.ToLower(strings.TrimSpace(subject))')]
pkg = 'sdk/pairwise'
test = r'''package pairwise_test

import (
	"testing"

	"zntr.io/solid/sdk/pairwise"
)

func TestDemo(t *testing.T) {
	e := pairwise.Hash([]byte("0123456789abcdef"))
	a, err := e.Encode("https://rp.example", "aB3x")
	if err != nil {
		t.Fatal(err)
	}
	b, err := e.Encode("https://rp.example", "Ab3X")
	if err != nil {
		t.Fatal(err)
	}
	if a == b {
		t.Fatalf("two subjects share the identifier %s", a)
	}
}
'''
