//go:build debug

package main

import "github.com/justyntemme/vst3go/pkg/dsp/debug"

const built = true

type pool = *debug.BufferPool

func newPool(n int) pool { return debug.NewBufferPool(n) }
