// Data folders: each is a database of its own.
package c30

import (
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// folder is a data folder, what was stored in it, and its server.
type folder struct {
	path string
	m    *kit.Model
	p    *kit.Process
	// the folder is the default one of this home
	home string
}

var names = []string{"a", "b", "data", "node 1", "ü/ñ", "x/y/z", ".hidden", "a.b", "100%", "a,b", "$HOME", "'q'", "~", "C:", "db", "index"}

func TestProperty(t *testing.T) {
	kit.Slow = 5 * time.Minute
	kit.Run(t, func(c *kit.Case) {
		ctx := context.Background()
		root := c.Dir()
		clock := kit.NewClock(c.T)
		hours := []time.Time{clock.Hour(), clock.Hour()}
		var all []*folder
		c.Cleanup(func() {
			for _, f := range all {
				if f.p != nil {
					f.p.Stop(syscall.SIGKILL)
				}
			}
		})
		runs, dirs := 0, map[string]bool{}
		rundir := func(f *folder) string {
			if f != nil && f.home != "" {
				return f.home
			}
			runs++
			d := filepath.Join(root, fmt.Sprintf("run%d", runs))
			dirs[d] = true
			c.Must(os.Mkdir(d, 0700), "mkdir")
			return d
		}
		free := func() string {
			for {
				p := filepath.Join(root, "data"+fmt.Sprint(len(all)), kit.Of(c.T, "name", names))
				if _, err := os.Stat(p); os.IsNotExist(err) {
					return p
				}
			}
		}
		fresh := func() *folder {
			f := &folder{m: &kit.Model{}}
			if rapid.IntRange(0, 3).Draw(c.T, "home") == 0 {
				f.home = rundir(nil)
				f.path = filepath.Join(f.home, ".rq")
			} else {
				f.path = free()
				c.Must(os.MkdirAll(filepath.Dir(f.path), 0700), "mkdir")
			}
			all = append(all, f)
			return f
		}
		// how the program is told about the folder and the address
		how := func(f *folder, dir string) func(addr string) (args, env []string) {
			env := rapid.IntRange(0, 2).Draw(c.T, "env")
			arg := f.path
			if f.home != "" {
				arg = ""
			} else if rapid.Bool().Draw(c.T, "relative") {
				r, err := filepath.Rel(dir, f.path)
				c.Must(err, "relative path")
				arg = r
			}
			if arg != "" && rapid.IntRange(0, 4).Draw(c.T, "slash") == 0 {
				arg += "/"
			}
			return func(addr string) (a, e []string) {
				switch env {
				case 0:
					a = []string{"--otlpListen", addr}
				case 1:
					e = []string{"RQ_OTLP_LISTEN=" + addr}
				default:
					a, e = []string{"--otlpListen=" + addr}, []string{"RQ_OTLP_LISTEN=not used"}
				}
				if arg != "" {
					a = append(a, arg)
				}
				c.Logf("%s: rq %q %q", dir, a, e)
				return
			}
		}
		check := func(f *folder, when string) {
			if d := kit.VerifyOwn(ctx, f.p.ScanSamples, f.m); d != "" {
				c.Fatalf("%s: %s: %s", f.path, when, d)
			}
		}
		pending := map[*folder][]*v1.Data{}
		start := func(f *folder) {
			dir := rundir(f)
			p, err := kit.Launch(dir, how(f, dir))
			c.Must(err, "start")
			f.p = p
			check(f, "after its start")
		}
		stop := func(f *folder) {
			err := f.p.Stop(kit.Of(c.T, "signal", []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}))
			f.p = nil
			c.Must(err, "stop")
			for _, d := range pending[f] {
				f.m.Add(uint64(len(f.m.All)+1), d)
			}
			delete(pending, f)
		}
		some := func(label string, ok func(f *folder) bool) *folder {
			var fs []*folder
			for _, f := range all {
				if ok(f) {
					fs = append(fs, f)
				}
			}
			if len(fs) == 0 {
				return nil
			}
			return kit.Of(c.T, label, fs)
		}
		running := func(f *folder) bool { return f.p != nil }
		stopped := func(f *folder) bool { return f.p == nil }
		// a server that can not start says so and ends
		refused := func(f *folder, addr string) {
			dir := rundir(f)
			args, env := how(f, dir)(addr)
			x, cancel := context.WithTimeout(ctx, time.Minute)
			defer cancel()
			cmd := exec.CommandContext(x, kit.Program, append([]string{"--logLevel", "error"}, args...)...)
			cmd.Dir = dir
			cmd.Env = append(append(os.Environ(), "HOME="+dir), env...)
			out, err := cmd.CombinedOutput()
			if err == nil {
				c.Fatalf("a server that can not start ends as if all were well\n%s", out)
			}
			if x.Err() != nil {
				c.Fatalf("a server that can not start goes on\n%s", out)
			}
			if len(out) == 0 {
				c.Fatalf("a server that can not start does not say why")
			}
		}
		exports, intrusions, moves, together, asks := 0, 0, 0, 0, 0
		export := func(f *folder) {
			hour := kit.Of(c.T, "hour", hours)
			g := &kit.Gen{T: c.T, MaxResources: 1, MaxScopes: 1, MaxMetrics: 2, MaxPoints: 2, Lean: true,
				Time: func() uint64 { return uint64(clock.In(hour).UnixNano()) }}
			d := g.Data(kit.Kind(kit.Of(c.T, "kind", []int{0, 0, 1, 2})))
			kit.Own(d)
			exports++
			for i, x := range kit.Points(d) {
				kit.Tag(x, fmt.Sprint(exports, "-", i))
			}
			keep := kit.Clone(d)
			c.Must(f.p.Export(ctx, d), "export")
			pending[f] = append(pending[f], keep)
			c.Logf("%s gets %v", f.path, keep)
		}
		start(fresh())
		export(all[0])
		for i := rapid.IntRange(3, 9).Draw(c.T, "ops"); i > 0; i-- {
			switch op := kit.Of(c.T, "op", []string{"new", "start", "export", "export", "stop", "stop", "folder in use", "port in use", "copy", "move", "ask", "ask"}); op {
			case "new":
				if len(all) < 3 {
					start(fresh())
				}
			case "start":
				if f := some("folder", stopped); f != nil {
					start(f)
				}
			case "export":
				if f := some("folder", running); f != nil {
					export(f)
				}
			case "stop":
				if f := some("folder", running); f != nil {
					stop(f)
				}
			case "folder in use":
				f := some("folder", running)
				if f == nil {
					continue
				}
				refused(f, "127.0.0.1:0")
				intrusions++
				check(f, "after another server was started on its folder")
				export(f)
			case "port in use":
				g := some("server", running)
				if g == nil {
					continue
				}
				f := some("folder", stopped)
				if f == nil {
					f = fresh()
				}
				refused(f, g.p.Addr)
				intrusions++
				check(g, "after another server was started on its port")
			case "copy", "move":
				f := some("folder", stopped)
				if f == nil || len(all) > 3 {
					continue
				}
				to := free()
				c.Must(os.MkdirAll(filepath.Dir(to), 0700), "mkdir")
				if op == "move" {
					c.Must(os.Rename(f.path, to), "move")
					f.path, f.home = to, ""
				} else {
					if out, err := exec.Command("cp", "-a", f.path, to).CombinedOutput(); err != nil {
						c.Must(fmt.Errorf("%w %s", err, out), "copy")
					}
					n := &folder{path: to, m: &kit.Model{}}
					for _, s := range f.m.All {
						n.m.Add(s.ID, s.Data)
					}
					all = append(all, n)
				}
				c.Logf("%s to %s", op, to)
				moves++
			case "ask":
				// a client that is told about the address
				f := some("folder", running)
				if f == nil {
					continue
				}
				var args, env []string
				switch rapid.IntRange(0, 2).Draw(c.T, "env") {
				case 0:
					args = []string{"--remoteAddress", f.p.Addr}
				case 1:
					env = []string{"RQ_REMOTE_ADDRESS=" + f.p.Addr}
				default:
					args, env = []string{"--remoteAddress=" + f.p.Addr}, []string{"RQ_REMOTE_ADDRESS=localhost:1"}
				}
				dir := rundir(nil)
				asks++
				out, err := kit.Client(dir, env, append([]string{"version"}, args...)...)
				c.Must(err, "version")
				v, err := f.p.GetVersion(ctx, &v1.GetVersionRequest{})
				c.Must(err, "version")
				if strings.TrimSpace(string(out)) != v.Version || v.Version == "" {
					c.Fatalf("the version of the server is %q, the client prints %q", v.Version, out)
				}
				if src, check := kit.MetricsScript(f.m); src != "" {
					c.Must(os.WriteFile(filepath.Join(dir, "script.ts"), []byte(src), 0600), "script")
					out, err := kit.Client(dir, env, append(append([]string{"query"}, args...), "script.ts")...)
					c.Must(err, "query")
					if err := check(out); err != nil {
						c.Fatalf("%s: %v", f.path, err)
					}
				}
			}
			n := 0
			for _, f := range all {
				if f.p != nil {
					n++
				}
			}
			together = max(together, n)
		}
		for _, f := range all {
			if f.p == nil {
				start(f)
				stop(f)
			} else {
				stop(f)
				start(f)
				stop(f)
			}
		}
		// files are where they belong
		c.Must(filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
			if err != nil || e.IsDir() {
				return err
			}
			for _, f := range all {
				if strings.HasPrefix(p, filepath.Join(f.path, "data")+"/") {
					return nil
				}
			}
			for d := range dirs {
				switch r := strings.TrimPrefix(p, d+"/"); {
				case r == p:
				case r == "log", r == "script.ts", strings.HasPrefix(r, ".rq/cache/"):
					return nil
				}
			}
			c.Fatalf("a file %s", p)
			return nil
		}), "walk")
		c.ClassIf(intrusions > 0, "folder or port in use")
		c.ClassIf(moves > 0, "folder copied or moved")
		c.ClassIf(together > 1, "servers side by side")
		c.ClassIf(asks > 0, "clients")
		c.NonTrivialIf(intrusions+moves > 0 || together > 1)
	})
}
