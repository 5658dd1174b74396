// Package props has the properties: reference models and scenarios over the real code.
package props

import (
	"sort"

	"verif/mc/engine"
)

// Property is a checked property.
type Property struct {
	ID          string
	Scenarios   func(tier string) []*engine.Scenario
	Assumptions []string
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

// Get returns a property.
func Get(id string) *Property { return registry[id] }

// IDs lists properties.
func IDs() (r []string) {
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}
