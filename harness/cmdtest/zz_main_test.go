package main

import (
	"fmt"
	"os"
	"testing"
	"time"
)

var zzModes = map[string]func(t *testing.T){}

// TestZZ runs the mode named by ZZ_MODE.
func TestZZ(t *testing.T) {
	m := os.Getenv("ZZ_MODE")
	if m == "" {
		t.Skip("verification harness")
	}
	f, ok := zzModes[m]
	if !ok {
		t.Fatal("unknown mode " + m)
	}
	t0 := time.Now()
	zzQuiet()
	f(t)
	fmt.Printf("ZZ-DONE mode=%s wall=%.1fs\n", m, time.Since(t0).Seconds())
}

// zzShard tells whether case number i belongs to this process.
func zzShard(i int) bool {
	n := zzEnvInt("ZZ_SHARDS", 1)
	return i%n == zzEnvInt("ZZ_SHARD", 0)
}
