//go:build go1.25

package mem

import (
	"testing"

	"github.com/unit-io/unitdb/server/zzverif/vh"
)

func TestMain(m *testing.M)  { vh.Main(m, Suites()...) }
func TestVerif(t *testing.T) { vh.Test(t) }
