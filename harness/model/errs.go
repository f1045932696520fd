package model

import "verif/nd"

//sym:replace errors.As
func errorsAs(err error, target any) bool {
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for err != nil {
		if nd.AssignErr(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
