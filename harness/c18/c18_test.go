// Scripts: a query asks for exactly what its calls say.
package c18

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		clock := kit.NewClock(c.T)
		now := clock.Any()
		var src strings.Builder
		src.WriteString("import { Metrics, Logs, Trace } from \"@requiemdb/rq\";\n")
		var qs []*kit.Query
		calls, ranges, filters := 0, 0, 0
		for n := rapid.IntRange(1, 6).Draw(c.T, "queries"); n > 0; n-- {
			k := kit.Of(c.T, "kind", []kit.Kind{kit.KMetrics, kit.KLogs, kit.KTraces})
			q := kit.DrawQuery(c.T, k, now, clock, 7)
			calls += q.Calls
			filters += len(q.Scan.Filters)
			if q.Scan.TimeRange != nil {
				ranges++
			}
			qs = append(qs, q)
			fmt.Fprintf(&src, "const q%d = %s;\n", len(qs), q.Src)
		}
		// queries of a script do not depend on each other or on the order that they run in
		order := rapid.Permutation(qs).Draw(c.T, "order")
		bad := ""
		if rapid.IntRange(0, 4).Draw(c.T, "bad") == 0 {
			bad = kit.Of(c.T, "bad duration", []string{"", "1", "x", "15minutes", "1d", "h"})
		}
		for _, q := range order {
			for i := range qs {
				if qs[i] == q {
					fmt.Fprintf(&src, "q%d.query();\n", i+1)
				}
			}
		}
		wrong := bad != "" || rapid.IntRange(0, 9).Draw(c.T, "wrong") == 0
		if wrong {
			fmt.Fprintf(&src, "new Logs().%s(%q).query();\n", kit.Of(c.T, "duration of", []string{"ago", "offset"}), bad)
		}
		c.Logf("at %s\n%s", now, src.String())
		code, err := compile.Compile([]byte(src.String()))
		c.Must(err, "compile")
		program, err := goja.Compile("index.js", string(code), true)
		c.Must(err, "program")
		var got []*v1.Scan
		vm := js.New().WithOutput(io.Discard).WithNow(func() time.Time { return now }).WithScan(func(s *v1.Scan) (*v1.Data, error) {
			got = append(got, proto.Clone(s).(*v1.Scan))
			r := map[v1.Scan_SCOPE]v1.RESOURCE{v1.Scan_METRICS: v1.RESOURCE_METRICS, v1.Scan_LOGS: v1.RESOURCE_LOGS, v1.Scan_TRACES: v1.RESOURCE_TRACES}
			return data.Zero(r[s.Scope]), nil
		})
		defer vm.Release()
		err = vm.Run(program)
		if wrong && err == nil {
			c.Fatalf("a bad duration %q is accepted, queries %v", bad, got)
		}
		if !wrong {
			c.Must(err, "run")
		}
		if len(got) != len(order) {
			c.Fatalf("%d queries, %d scans", len(order), len(got))
		}
		for i, q := range order {
			if !proto.Equal(q.Scan, got[i]) {
				c.Fatalf("%s at %s\nwant %v\ngot  %v", q.Src, now, q.Scan, got[i])
			}
		}
		// errors of the database end the script
		fail := errors.New("database is gone")
		vm.WithScan(func(s *v1.Scan) (*v1.Data, error) { return nil, fail })
		if err := vm.Run(program); err == nil || !strings.Contains(err.Error(), fail.Error()) {
			c.Fatalf("failure of a scan is not reported: %v", err)
		}
		c.ClassIf(wrong, "invalid duration")
		c.ClassIf(filters > 1, "several filters")
		c.ClassIf(ranges > 0, "time range")
		c.NonTrivialIf(calls > 2)
	})
}
