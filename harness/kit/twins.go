package kit

import (
	"encoding/binary"
	"math/bits"
	"math/rand"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// Different texts with the same hash. Hashes of 64 bits that are not keyed are
// easy to invert, whoever relies on them for what clients send relies on
// nobody trying.

const (
	prime1 uint64 = 11400714785074694791
	prime2 uint64 = 14029467366897019727
)

func round(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*prime2, 31) * prime1 }

// Twins returns two texts of the same length for which the xxhash of
// head+text+tail is the same, whatever head of at bytes and tail are. It is for
// at up to 24.
func Twins(at int, seed int64) (x, y string) {
	if at > 24 {
		panic("not without the head")
	}
	return TwinsAfter(strings.Repeat("-", at), seed)
}

// TwinsAfter is like Twins for a head that is known.
func TwinsAfter(head string, seed int64) (x, y string) {
	rnd := rand.New(rand.NewSource(seed))
	inverse := prime2
	for i := 0; i < 6; i++ {
		inverse *= 2 - prime2*inverse
	}
	u := binary.LittleEndian.Uint64
	from := (8 - len(head)%8) % 8
	head += strings.Repeat("-", from)
	lane := len(head) % 32 / 8
	p1, p2 := prime1, prime2
	start := []uint64{p1 + p2, p2, 0, -p1}[lane]
	for ; len(head) >= 32; head = head[32:] {
		start = round(start, u([]byte(head[lane*8:])))
	}
	word := func() []byte {
		b := make([]byte, 8)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[rnd.Intn(36)]
		}
		return b
	}
	for {
		a, a2, b, b2 := word(), word(), word(), make([]byte, 8)
		binary.LittleEndian.PutUint64(b2, u(b)+(round(start, u(a))-round(start, u(a2)))*inverse)
		ok := string(a) != string(a2)
		for _, c := range b2 {
			if c < ' ' || c > '~' || strings.IndexByte("\\=\"'`$", c) >= 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		mk := func(a, b []byte) string {
			return strings.Repeat("-", from) + string(a) + strings.Repeat("-", 24) + string(b) + strings.Repeat("-", 24)
		}
		return mk(a, b), mk(a2, b2)
	}
}

// DrawTwins draws two texts of a pool and what to replace them with. The result
// is nil most of the time.
func DrawTwins(t *rapid.T, chance int, at map[string][]int) map[string]string {
	if rapid.IntRange(0, chance-1).Draw(t, "twins") != chance-1 {
		return nil
	}
	pools := map[string][]string{"keys": Keys, "values": Values, "names": Names, "schemas": Schemas, "scopes": Scopes, "version": Version, "levels": Levels}
	var names []string
	for _, n := range []string{"names", "values", "keys", "schemas", "scopes", "version", "levels"} {
		if len(at[n]) > 0 {
			names = append(names, n)
		}
	}
	n := Of(t, "twins of", names)
	x, y := Twins(Of(t, "twins at", at[n]), 1)
	var p []string
	for _, s := range pools[n] {
		if s != "" {
			p = append(p, s)
		}
	}
	// most of the texts become twins
	o := map[string]string{}
	for i, s := range p {
		o[s] = []string{x, y}[i%2]
	}
	for i := rapid.IntRange(0, 2).Draw(t, "others"); i > 0; i-- {
		delete(o, Of(t, "other", p))
	}
	return o
}

// Rename replaces texts anywhere in m.
func Rename(m proto.Message, by map[string]string) {
	if len(by) > 0 {
		rename(m.ProtoReflect(), by)
	}
}

func rename(m protoreflect.Message, by map[string]string) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
		case fd.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if fd.Message() != nil {
					rename(l.Get(i).Message(), by)
				} else if fd.Kind() == protoreflect.StringKind {
					if n, ok := by[l.Get(i).String()]; ok {
						l.Set(i, protoreflect.ValueOfString(n))
					}
				}
			}
		case fd.Message() != nil:
			rename(v.Message(), by)
		case fd.Kind() == protoreflect.StringKind:
			if n, ok := by[v.String()]; ok {
				m.Set(fd, protoreflect.ValueOfString(n))
			}
		}
		return true
	})
}
