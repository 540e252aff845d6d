package sim

import (
	"testing"
	"testing/synctest"
)

// T is set by the test binary that hosts the simulation.
var T *testing.T

func synctestRun(f func()) { synctest.Test(T, func(*testing.T) { f() }) }
