//go:build verifoverlay

package vh

import (
	"math/rand"
	"os"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/valyala/fastrand"
)

func init() {
	// forced values would hide what the random source does to its own memory
	if os.Getenv("VH_REALRAND") == "" {
		rand.VerifHook = Hook
		fastrand.VerifHook = Hook
	}
	gpsgen.VerifYield = Yield
}
