//go:build veriftune

package main

import (
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
)

const tuned = true

// setWorkers makes the parsers behave as on a machine with n processors.
func setWorkers(n int) {
	a2l.VerifSetWorkers(2 * n)
	ihex32.VerifSetWorkers(n)
	srec19.VerifSetWorkers(n)
}
