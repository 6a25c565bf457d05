// Package zzbridge gives the checks access to the internal register package.
package zzbridge

import (
	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/internal/register"
)

// Pools lists the registered pools.
func Pools() <-chan goroutines.Pool { return register.Pools() }
