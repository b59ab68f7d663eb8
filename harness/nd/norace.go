//go:build !race

package nd

func raceHide() {}
func raceShow() {}
