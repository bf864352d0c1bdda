//go:build race
// +build race

package verifh

func raceEnabled() bool { return true }
