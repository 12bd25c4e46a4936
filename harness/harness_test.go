package main

import "testing"

// TestHarness is the program: only in a test can goroutines be run step by
// step (testing/synctest).
func TestHarness(t *testing.T) {
	theTest = t
	drive()
}
