package kit

import (
	"strings"
	"testing"

	"github.com/cespare/xxhash/v2"
)

func TestTwins(t *testing.T) {
	for at := 0; at < 200; at++ {
		head := strings.Repeat("h3", at)[:at]
		x, y := TwinsAfter(head, 1)
		if at < 25 {
			x, y = Twins(at, 1)
		}
		if x == y || len(x) != len(y) || xxhash.Sum64String(head+x+"tail") != xxhash.Sum64String(head+y+"tail") {
			t.Fatal(at, x, y)
		}
	}
}
