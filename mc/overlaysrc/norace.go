//go:build !race

package verifsched

func raceDisable()            {}
func raceEnable()             {}
func raceAcquire(*int64)      {}
func raceRelease(*int64)      {}
func raceReleaseMerge(*int64) {}

// Races counts the data races seen so far (race detector builds only).
func Races() int { return -1 }
