//go:build !veriftune

package main

const tuned = false

func setWorkers(n int) {}
