package props

import (
	"testing"

	"verif.local/harness/core"
)

func TestCheck(t *testing.T) { core.Main(t) }
