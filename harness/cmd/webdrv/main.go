package main

import (
	"time"

	"verif/drv"
)

func main() {
	drv.Main(map[string]func([]drv.Ev) []drv.Ev{
		"router":   runRouter,
		"pattern":  runPattern,
		"dispatch": runDispatch,
		"mstack":   runMStack,
		"response": runResponse,
		"std":      runStd,
		"bulk":     func(s []drv.Ev) []drv.Ev { drv.HangAfter = 5 * time.Minute; return runStd(s) },
	})
}
