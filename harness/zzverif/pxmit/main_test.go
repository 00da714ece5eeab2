package pxmit

import (
	"testing"

	"alda.io/client/zzverif/vp"
)

func TestVP(t *testing.T) { vp.Main(t) }
