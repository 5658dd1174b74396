//go:build points

package props

import (
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

const instrumented = true

func setPoints(f func()) {
	openapi.SetVerifPoint(f)
	openapi3.SetVerifPoint(f)
	openapi31.SetVerifPoint(f)
}
