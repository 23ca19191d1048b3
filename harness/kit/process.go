package kit

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"google.golang.org/grpc"
)

// Process is the server program.
type Process struct {
	*Remote
	cmd  *exec.Cmd
	Addr string
	log  string
	done chan error
}

// Program is the server program and its command line.
var Program = filepath.Join(os.Getenv("VERIF_BIN"), "prog-rq")

// Start the server on a data folder.
func Start(dir string, opts ...grpc.CallOption) (*Process, error) {
	return Launch(dir, func(addr string) (args, env []string) {
		return []string{"--otlpListen", addr, filepath.Join(dir, "node")}, nil
	}, opts...)
}

var (
	taken   = map[string]bool{}
	takenMu sync.Mutex
)

// freeAddr is an address that no other server of any worker is given. Each
// process has an IP of its own: two that find the same free port at the same
// time would talk to one server.
func freeAddr() (string, error) {
	takenMu.Lock()
	defer takenMu.Unlock()
	pid := os.Getpid()
	for {
		l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+pid>>16&63, pid>>8&255, pid&255))
		if err != nil {
			return "", err
		}
		addr := l.Addr().String()
		l.Close()
		if !taken[addr] || len(taken) > 10000 {
			taken[addr] = true
			return addr, nil
		}
	}
}

// Launch starts the server in dir with arguments and environment of its own for
// an address to listen to. Its log and home are in dir.
func Launch(dir string, how func(addr string) (args, env []string), opts ...grpc.CallOption) (*Process, error) {
	for try := 0; ; try++ {
		addr, err := freeAddr()
		if err != nil {
			return nil, err
		}
		p := &Process{Addr: addr, log: filepath.Join(dir, "log"), done: make(chan error, 1)}
		f, err := os.Create(p.log)
		if err != nil {
			return nil, err
		}
		args, env := how(p.Addr)
		p.cmd = exec.Command(Program, append([]string{"--logLevel", "error"}, args...)...)
		p.cmd.Dir = dir
		p.cmd.Env = append(append(os.Environ(), "HOME="+dir, "GOMAXPROCS=2"), env...)
		p.cmd.Stdout, p.cmd.Stderr = f, f
		err = p.cmd.Start()
		f.Close()
		if err != nil {
			return nil, err
		}
		go func() { p.done <- p.cmd.Wait() }()
		// the first attempt to connect of a client that fails costs a second
		for i := 0; i < 1000; i++ {
			x, err := net.Dial("tcp", p.Addr)
			if err == nil {
				x.Close()
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		p.Remote, err = Dial(p.Addr, opts...)
		if err != nil {
			return nil, err
		}
		for wait := 0; ; wait++ {
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			_, err = p.GetVersion(ctx, &v1.GetVersionRequest{}, grpc.WaitForReady(true))
			cancel()
			if err == nil {
				return p, nil
			}
			select {
			case e := <-p.done:
				p.Remote.Close()
				b, _ := os.ReadFile(p.log)
				if try < 5 && strings.Contains(string(b), "address already in use") {
					break
				}
				return nil, fmt.Errorf("the server stops: %v\n%s", e, b)
			default:
				if wait < 60 {
					continue
				}
				p.Stop(syscall.SIGKILL)
				return nil, errors.New("the server does not answer")
			}
			break
		}
	}
}

// Stop the server with a signal.
func (p *Process) Stop(sig syscall.Signal) error {
	p.cmd.Process.Signal(sig)
	select {
	case err := <-p.done:
		p.Remote.Close()
		if sig == syscall.SIGKILL {
			return nil
		}
		if err != nil {
			b, _ := os.ReadFile(p.log)
			err = fmt.Errorf("%w\n%s", err, b)
		}
		return err
	case <-time.After(90 * time.Second):
		p.cmd.Process.Kill()
		return errors.New("the server does not stop")
	}
}
