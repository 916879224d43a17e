package main

import (
	"os"
	"testing"
)

func TestSSA(t *testing.T) {
	p, err := Load("/repo")
	if err != nil {
		t.Fatal(err)
	}
	findFunc(p, os.Getenv("FN")).WriteTo(os.Stdout)
}
