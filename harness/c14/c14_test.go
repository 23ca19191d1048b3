// Keys under which labels and samples are filed: different things never share a
// key.
package c14

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/keys"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

type label struct {
	r    v1.RESOURCE
	p    v1.PREFIX
	k, v string
}

var base = []v1.PREFIX{v1.PREFIX_UNKNOWN, v1.PREFIX_RESOURCE_SCHEMA, v1.PREFIX_SCOPE_SCHEMA, v1.PREFIX_SCOPE_NAME,
	v1.PREFIX_SCOPE_VERSION, v1.PREFIX_NAME, v1.PREFIX_TRACE_ID, v1.PREFIX_SPAN_ID, v1.PREFIX_PARENT_SPAN_ID, v1.PREFIX_LOGS_LEVEL}
var attr = []v1.PREFIX{v1.PREFIX_RESOURCE_ATTRIBUTES, v1.PREFIX_SCOPE_ATTRIBUTES, v1.PREFIX_ATTRIBUTES}
var res = []v1.RESOURCE{v1.RESOURCE_UNKOWN, v1.RESOURCE_METRICS, v1.RESOURCE_TRACES, v1.RESOURCE_LOGS}

// text is made of the characters that separate things.
func text(t *rapid.T, name string, min int) string {
	if rapid.IntRange(0, 99).Draw(t, name+" long") == 99 {
		return kit.Long(t)
	}
	n := rapid.IntRange(min, 6).Draw(t, name)
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(kit.Of(t, name, []string{"a", "=", `\`, "=", `\`, ":", "0", "1", "b", "\x00", "é"}))
	}
	return b.String()
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		var all []label
		draw := func() label {
			l := label{r: kit.Of(c.T, "resource", res)}
			if rapid.IntRange(0, 3).Draw(c.T, "attribute") > 0 {
				l.p = kit.Of(c.T, "prefix", attr)
				l.k, l.v = text(c.T, "key", 0), text(c.T, "value", 1)
			} else {
				l.p = kit.Of(c.T, "prefix", base)
				l.k = text(c.T, "key", 0)
			}
			return l
		}
		cut := false
		for i := rapid.IntRange(2, 30).Draw(c.T, "labels"); i > 0; i-- {
			l := draw()
			if len(all) > 0 && rapid.Bool().Draw(c.T, "close") {
				// the same text, split in other ways
				x := kit.Of(c.T, "other", all)
				if n := len(x.v); n > 1000 {
					x.v = kit.Of(c.T, "end", []string{x.v[:n-1] + "x", x.v[:n-1] + "y", x.v[:n-1], x.v + "x"})
				} else if n := len(x.k); n > 1000 {
					x.k = kit.Of(c.T, "end", []string{x.k[:n-1] + "x", x.k[:n-1] + "y", x.k[:n-1], x.k + "x"})
				}
				switch rapid.IntRange(0, 3).Draw(c.T, "change") {
				case 0:
					x.r = l.r
				case 1:
					if (x.v == "") == (l.v == "") {
						x.p = l.p
					}
				default:
					if x.v == "" {
						break
					}
					s := x.k + kit.Of(c.T, "separator", []string{"=", "", `\=`, `\\=`}) + x.v
					if at := rapid.IntRange(0, len(s)-1).Draw(c.T, "at"); at < len(s) {
						x.k, x.v = s[:at], s[at:]
						if strings.HasPrefix(x.v, "=") && len(x.v) > 1 {
							x.v = x.v[1:]
						}
						cut = true
					}
				}
				l = x
			}
			all = append(all, l)
			c.Logf("%d %d %q %q", l.r, l.p, l.k, l.v)
		}
		seen := map[string]label{}
		of := map[label]string{}
		shared := labels.NewLabel()
		defer shared.Release()
		for _, l := range all {
			// a label object is reused for many labels
			k := string(shared.Reset().WithResource(l.r).WithPrefix(l.p).WithKey(l.k).WithValue(l.v).Encode())
			fresh := labels.Label{Resource: l.r, Prefix: l.p, Key: l.k, Value: l.v}
			if f := fresh.String(); f != k {
				c.Fatalf("label %v has keys %q and %q", l, k, f)
			}
			if o, ok := seen[k]; ok && o != l {
				c.Fatalf("labels %+v and %+v share the key %q", o, l, k)
			}
			seen[k] = l
			of[l] = k
		}
		c.ClassIf(cut, "same text split in another way")
		c.ClassIf(len(of) < len(all), "repeated label")
		c.NonTrivialIf(len(of) > 1)

		type sample struct {
			r  v1.RESOURCE
			id uint64
		}
		used := map[string]sample{}
		for i := rapid.IntRange(2, 8).Draw(c.T, "samples"); i > 0; i-- {
			s := sample{kit.Of(c.T, "resource", res), kit.Of(c.T, "id", []uint64{0, 1, 2, 10, 11, 12, 21, 110, 1 << 20, 1<<63 + 1, 1<<64 - 1})}
			k := keys.New()
			b := string(k.WithResource(s.r).WithID(s.id).Encode())
			str := k.String()
			if str != b {
				c.Fatalf("sample %v: %q and %q", s, b, str)
			}
			for _, r := range res {
				x := keys.New()
				if p := x.WithResource(r).Prefix(); bytes.HasPrefix([]byte(b), p) != (r == s.r) {
					c.Fatalf("key %q of signal %d and prefix %q of signal %d", b, s.r, p, r)
				}
				x.Release()
			}
			k.Release()
			if o, ok := used[b]; ok && o != s {
				c.Fatalf("samples %v and %v share the key %q", o, s, b)
			}
			used[b] = s
			c.Logf(fmt.Sprint(s))
		}
	})
}
