package main

import (
	"math/rand"
	"os"
	"path/filepath"
)

type randT = rand.Rand

func mkfile(p string) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, []byte("x\n"), 0o644)
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
