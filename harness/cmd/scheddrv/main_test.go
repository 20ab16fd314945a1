package scheddrv

import (
	"flag"
	"os"
	"testing"

	"verif/drv"
	"verif/sdrv"
)

func TestMain(m *testing.M) {
	sdrv.Pin()
	flag.Parse()
	os.Exit(m.Run())
}

func TestDrive(t *testing.T) {
	a := flag.Args()
	if len(a) != 3 {
		drv.Die("usage: driver CMD IN OUT")
	}
	run := map[string]sdrv.Runner{
		"listener": runListener,
		"graceful": runGraceful,
		"http":     runHTTP,
	}[a[0]]
	if run == nil {
		drv.Die("unknown command ", a[0])
	}
	sdrv.Drive(t, a[1], a[2], run)
}
