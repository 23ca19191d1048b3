// Snippets: a compiled one is the program of its own source.
package c32

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/snippets"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// run is what a program does in a new runtime.
func run(p *goja.Program, err error) string {
	if err != nil {
		return "does not compile: " + err.Error()
	}
	var b strings.Builder
	vm := goja.New()
	vm.Set("print", func(a ...any) { fmt.Fprintln(&b, a...) })
	if v, err := vm.RunProgram(p); err != nil {
		fmt.Fprint(&b, "fails: ", err)
	} else {
		fmt.Fprint(&b, "is ", v)
	}
	return b.String()
}

func compiled(src string) string { return run(goja.Compile("index.js", src, true)) }

func source(c *kit.Case, have []string) string {
	if len(have) > 0 && rapid.IntRange(0, 3).Draw(c.T, "like another") == 3 {
		s := kit.Of(c.T, "other", have)
		switch rapid.IntRange(0, 4).Draw(c.T, "change") {
		case 0:
			return s + " "
		case 1:
			return s + "\nprint('x')"
		case 2:
			return strings.Replace(s, "1", "2", 1)
		case 3:
			return strings.ToUpper(s[:len(s)/2]) + s[len(s)/2:]
		}
		return s[:len(s)/2]
	}
	var b strings.Builder
	for n := rapid.IntRange(0, 4).Draw(c.T, "statements"); n > 0; n-- {
		fmt.Fprintf(&b, kit.Of(c.T, "statement", []string{"print('a', %d);", "var v%d = 1;\n", "print(typeof v%d);", "throw new Error('e%d');", "let l%[1]d = l%[1]d;",
			"x%d = 1;", "(function(){ return this; })() === undefined ? print('strict %d') : 0;", "print(`世界 %d`);", "if (;%d", "with ({a: %d}) print(a);", "print(new Error('p').stack, %d);"}), rapid.IntRange(0, 12).Draw(c.T, "n"))
	}
	if rapid.IntRange(0, 9).Draw(c.T, "large") == 9 {
		fmt.Fprintf(&b, "print('%s')", strings.Repeat("x", rapid.IntRange(0, 70000).Draw(c.T, "size")))
	}
	return b.String()
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		s, err := snippets.New()
		c.Must(err, "new")
		defer s.Close()
		var srcs []string
		for n := rapid.IntRange(1, 8).Draw(c.T, "sources"); n > 0; n-- {
			srcs = append(srcs, source(c, srcs))
		}
		twins := rapid.Bool().Draw(c.T, "same hash")
		if twins {
			head := source(c, nil) + "\nprint('"
			x, y := kit.TwinsAfter(head, rapid.Int64().Draw(c.T, "seed"))
			srcs = append(srcs, head+x+"')", head+y+"')")
		}
		for i, x := range srcs {
			c.Logf("%d: %.300q", i, x)
		}
		want := make([]string, len(srcs))
		for i, x := range srcs {
			want[i] = compiled(x)
		}
		buf := make([]byte, 0, 1<<10)
		seq := rapid.SliceOfN(rapid.IntRange(0, len(srcs)-1), 1, 20).Draw(c.T, "order")
		again := 0
		seen := map[int]bool{}
		for _, i := range seq {
			// The caller may use its memory again.
			buf = append(buf[:0], srcs[i]...)
			p, err := s.GetProgramData(buf)
			if string(buf) != srcs[i] {
				c.Fatalf("source %d was changed to %q", i, buf)
			}
			for k := range buf {
				buf[k] = ' '
			}
			if got := run(p, err); got != want[i] {
				c.Fatalf("source %d: %q\nwant %q\ngot  %q", i, srcs[i], want[i], got)
			}
			if seen[i] {
				again++
			}
			seen[i] = true
		}
		workers := rapid.IntRange(0, 4).Draw(c.T, "together")
		seed := rapid.Int64().Draw(c.T, "orders")
		bad := make(chan string, workers)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, i := range rand.New(rand.NewSource(seed + int64(w))).Perm(len(srcs)) {
					if got := run(s.GetProgramData([]byte(srcs[i]))); got != want[i] {
						bad <- fmt.Sprintf("together: source %d: %q\nwant %q\ngot  %q", i, srcs[i], want[i], got)
						return
					}
				}
			}()
		}
		wg.Wait()
		select {
		case x := <-bad:
			c.Fatalf("%s", x)
		default:
		}
		c.ClassIf(twins, "different sources with the same hash")
		c.ClassIf(workers > 1, "together")
		c.NonTrivialIf(again > 0)
	})
}
