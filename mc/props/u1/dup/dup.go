// Package dup has types named like those of another package.
package dup

// T has its namesake in another package.
type T struct {
	X int `json:"x"`
}

// L is a list.
type L []T

// F is a form.
type F struct {
	X int `formData:"x"`
}

// Q is a deep object.
type Q struct {
	X int `query:"x"`
}
