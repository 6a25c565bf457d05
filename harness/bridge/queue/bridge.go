// Package zzbridge gives the checks access to the internal queue package.
package zzbridge

import "github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"

// Queue is the bounded queue.
type Queue[A any] interface {
	Push(A)
	Pop() (A, bool)
	Close()
}

// New makes a queue.
func New[A any](size int) Queue[A] { return queue.New[A](size) }
