// Package checks holds one exhaustive exploration per property.
package checks

import (
	"verifharness/kit"
)

// Check decides one property.
type Check struct {
	Level string
	Run   func(*kit.Ctx)
}

var All = map[string]Check{}

func register(id, level string, run func(*kit.Ctx)) { All[id] = Check{level, run} }
