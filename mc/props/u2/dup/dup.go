// Package dup has types named like those of another package.
package dup

// T has its namesake in another package.
type T struct {
	Y string `json:"y"`
}

// L is a list.
type L []T

// F is a form.
type F struct {
	Y string `formData:"y"`
}

// Q is a deep object.
type Q struct {
	Y string `query:"y"`
}
