package model

import (
	"unicode/utf8"

	"verif/nd"
)

// Upper and lower case of ASCII text without a branch per byte.

func ascii(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = nd.And(ok, s[i] < utf8.RuneSelf)
	}
	return ok
}

//sym:replace strings.ToUpper
func toUpper(s string) string {
	if !ascii(s) {
		nd.Unsupported("strings.ToUpper beyond ASCII")
	}
	b := []byte(s)
	for i, c := range b {
		b[i] = byte(nd.IteInt(nd.And(c >= 'a', c <= 'z'), int(c)-32, int(c)))
	}
	return string(b)
}

//sym:replace strings.ToLower
func toLower(s string) string {
	if !ascii(s) {
		nd.Unsupported("strings.ToLower beyond ASCII")
	}
	b := []byte(s)
	for i, c := range b {
		b[i] = byte(nd.IteInt(nd.And(c >= 'A', c <= 'Z'), int(c)+32, int(c)))
	}
	return string(b)
}
