// Compression gives back what was compressed.
package c21

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/arena"
	"github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/x"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/grpc/encoding"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// payload draws bytes of all sizes, compressible or not.
func payload(c *kit.Case, name string) []byte {
	n := 0
	switch rapid.IntRange(0, 9).Draw(c.T, name+" size") {
	case 0:
	case 1, 2, 3, 4:
		n = rapid.IntRange(1, 300).Draw(c.T, name+" len")
	case 5, 6:
		n = rapid.IntRange(300, 20000).Draw(c.T, name+" len")
	case 7, 8: // around blocks and buffers
		n = kit.Of(c.T, name+" len", []int{1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 18}) + rapid.IntRange(-3, 3).Draw(c.T, name+" around")
	case 9:
		n = rapid.IntRange(1<<17, 1<<20).Draw(c.T, name+" len")
	}
	c.ClassIf(n == 0, "empty")
	c.ClassIf(n > 1<<17, "more than a block")
	b := make([]byte, n)
	r := rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<30).Draw(c.T, name+" seed"))))
	switch kind := rapid.IntRange(0, 3).Draw(c.T, name+" kind"); kind {
	case 0: // zeros
	case 1:
		r.Read(b)
	case 2:
		s := []byte("requiemdb.opentelemetry=")
		for i := range b {
			b[i] = s[i%len(s)]
			if r.Intn(40) == 0 {
				b[i]++
			}
		}
	case 3:
		r.Read(b[:n/2])
	}
	c.Logf("%s: %d bytes %x", name, n, b[:min(n, 16)])
	return b
}

type short struct {
	r io.Reader
	n int
}

func (s short) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.r.Read(p)
}

type limited struct {
	n int
}

var errFull = errors.New("full")

func (l *limited) Write(p []byte) (int, error) {
	if l.n -= len(p); l.n < 0 {
		return 0, errFull
	}
	return len(p), nil
}

// pass takes data through one of the ways in and one of the ways out.
func pass(data []byte, in, out, chunk int) error {
	keep := bytes.Clone(data)
	var z []byte
	var err error
	codec := encoding.GetCompressor("zstd")
	if codec == nil {
		return errors.New("no compressor for zstd")
	}
	switch in {
	case 0:
		z, err = compress.Compress(data)
	case 1:
		var b bytes.Buffer
		b.WriteString("head")
		err = compress.To(&b, data)
		if err == nil {
			if !strings.HasPrefix(b.String(), "head") {
				return errors.New("written data changed")
			}
			z = b.Bytes()[4:]
		}
	default:
		var b bytes.Buffer
		w, e := codec.Compress(&b)
		if e != nil {
			return e
		}
		for p := data; len(p) > 0; {
			n := min(chunk, len(p))
			if m, e := w.Write(p[:n]); e != nil || m != n {
				return fmt.Errorf("wrote %d of %d %v", m, n, e)
			}
			p = p[n:]
		}
		err = w.Close()
		z = b.Bytes()
	}
	if err != nil {
		return fmt.Errorf("compress: %w", err)
	}
	if !bytes.Equal(keep, data) {
		return errors.New("compress changed its input")
	}
	got, err := unpack(z, out, chunk)
	if err != nil {
		return fmt.Errorf("decompress: %w", err)
	}
	if !bytes.Equal(got, keep) {
		return fmt.Errorf("%d bytes came back as %d other bytes", len(keep), len(got))
	}
	return nil
}

func unpack(z []byte, out, chunk int) ([]byte, error) {
	codec := encoding.GetCompressor("zstd")
	switch out {
	case 0:
		return compress.Decompress(z)
	case 1:
		r, err := codec.Decompress(bytes.NewReader(z))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	case 2:
		r, err := codec.Decompress(short{bytes.NewReader(z), chunk})
		if err != nil {
			return nil, err
		}
		var b bytes.Buffer
		_, err = io.Copy(&b, r)
		return b.Bytes(), err
	default:
		r, err := codec.Decompress(bytes.NewReader(z))
		if err != nil {
			return nil, err
		}
		var b bytes.Buffer
		buf := make([]byte, chunk)
		for {
			n, err := r.Read(buf)
			b.Write(buf[:n])
			if err == io.EOF {
				// the end stays the end
				if n, err := r.Read(buf); n != 0 || err != io.EOF {
					return nil, fmt.Errorf("read after the end: %d %v", n, err)
				}
				return b.Bytes(), nil
			}
			if err != nil {
				return nil, err
			}
		}
	}
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		ways, parallel := 0, 0
		for i := rapid.IntRange(1, 6).Draw(c.T, "steps"); i > 0; i-- {
			switch op := rapid.SampledFrom([]string{"pass", "pass", "parallel", "damage", "full", "abandon", "interleave"}).Draw(c.T, "op"); op {
			case "pass":
				d := payload(c, "data")
				in, out, chunk := rapid.IntRange(0, 2).Draw(c.T, "in"), rapid.IntRange(0, 3).Draw(c.T, "out"), kit.Of(c.T, "chunk", []int{1, 7, 512, 4096, 40000, 1 << 20})
				if len(d) > 1<<16 && chunk < 512 {
					chunk = 512
				}
				c.Logf("pass %d %d %d", in, out, chunk)
				ways++
				if err := pass(d, in, out, chunk); err != nil {
					c.Fatalf("%v", err)
				}
			case "parallel":
				n := rapid.IntRange(2, 8).Draw(c.T, "clients")
				errs := make([]error, n)
				ds := make([][]byte, n)
				ins := make([]int, n)
				outs := make([]int, n)
				for j := range ds {
					ds[j] = payload(c, fmt.Sprint("data ", j))
					ins[j], outs[j] = rapid.IntRange(0, 2).Draw(c.T, "in"), rapid.IntRange(0, 3).Draw(c.T, "out")
				}
				var wg sync.WaitGroup
				for j := range ds {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < 2 && errs[j] == nil; k++ {
							errs[j] = pass(ds[j], ins[j], outs[j], 4096)
						}
					}()
				}
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						c.Fatalf("parallel: %v", err)
					}
				}
				parallel++
			case "damage":
				d := payload(c, "data")
				z, err := compress.Compress(d)
				c.Must(err, "compress")
				z = bytes.Clone(z)
				cut := false
				if rapid.Bool().Draw(c.T, "cut") && len(z) > 1 {
					z, cut = z[:rapid.IntRange(1, len(z)-1).Draw(c.T, "at")], true
				} else if len(z) > 0 {
					z[rapid.IntRange(0, len(z)-1).Draw(c.T, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
				}
				out := rapid.IntRange(0, 3).Draw(c.T, "out")
				c.Logf("damage cut=%v out=%d", cut, out)
				got, err := unpack(z, out, 4096)
				if cut && err == nil {
					c.Fatalf("%d of the compressed bytes were taken for all", len(z))
				}
				if err == nil && !bytes.Equal(got, d) {
					c.Fatalf("damaged data came back as other data without an error")
				}
				c.Class("damage")
			case "full":
				d := payload(c, "data")
				w := &limited{n: rapid.IntRange(0, 20).Draw(c.T, "room")}
				room := w.n
				err := compress.To(w, d)
				if err == nil && w.n < 0 {
					c.Fatalf("no error from a writer with room for %d bytes", room)
				}
				c.ClassIf(err != nil, "writer fails")
			case "interleave":
				interleave(c)
			case "abandon":
				// a reader that is not read to its end
				d := payload(c, "data")
				z, err := compress.Compress(d)
				c.Must(err, "compress")
				r, err := encoding.GetCompressor("zstd").Decompress(bytes.NewReader(z))
				c.Must(err, "decompress")
				n, err := io.ReadFull(r, make([]byte, len(d)/2))
				if err != nil {
					c.Fatalf("read %d bytes of a half: %v", n, err)
				}
			}
		}
		c.ClassIf(parallel > 0, "parallel")
		c.NonTrivialIf(ways+parallel > 0)
	})
}

// interleave moves several streams forward in turns, also such that have ended.
func interleave(c *kit.Case) {
	codec := encoding.GetCompressor("zstd")
	type stream struct {
		data []byte
		z    bytes.Buffer
		w    io.WriteCloser
		sent int
		r    io.Reader
		got  bytes.Buffer
		done bool
		part bool // some went elsewhere
		end  error
	}
	ss := make([]*stream, rapid.IntRange(2, 4).Draw(c.T, "streams"))
	for i := range ss {
		ss[i] = &stream{data: payload(c, fmt.Sprint("stream ", i))}
	}
	again := 0
	step := func(i, how int) {
		s := ss[i]
		fail := func(f string, a ...any) {
			c.Fatalf("stream %d: %s", i, fmt.Sprintf(f, a...))
		}
		chunk := len(s.data)/(1+how%4) + 1
		switch {
		case s.w == nil:
			w, err := codec.Compress(&s.z)
			if err != nil {
				fail("compress: %v", err)
			}
			s.w = w
		case s.r == nil && s.sent < len(s.data):
			n := min(chunk, len(s.data)-s.sent)
			if m, err := s.w.Write(s.data[s.sent : s.sent+n]); m != n || err != nil {
				fail("wrote %d of %d: %v", m, n, err)
			}
			s.sent += n
		case s.r == nil:
			if err := s.w.Close(); err != nil {
				fail("close: %v", err)
			}
			if how%3 == 0 {
				// closing again does nothing
				if err := s.w.Close(); err != nil {
					fail("close again: %v", err)
				}
			}
			r, err := codec.Decompress(bytes.NewReader(s.z.Bytes()))
			if err != nil {
				fail("decompress: %v", err)
			}
			s.r = r
		case s.done:
			// what has ended stays so
			again++
			if how%2 == 0 {
				if n, err := s.r.Read(make([]byte, 64)); n != 0 || err == nil || (s.end == nil) != (err == io.EOF) {
					fail("read %d bytes after the end: %v, ended with %v", n, err, s.end)
				}
			} else if w, ok := s.r.(io.WriterTo); ok {
				var b bytes.Buffer
				if n, err := w.WriteTo(&b); n != 0 || b.Len() != 0 || (s.end == nil) != (err == nil) {
					fail("wrote %d bytes after the end: %v, ended with %v", b.Len(), err, s.end)
				}
			}
		case how == 7:
			w, ok := s.r.(io.WriterTo)
			if !ok {
				return
			}
			l := &limited{n: len(s.data) / 2}
			_, err := w.WriteTo(l)
			if l.n < 0 && err == nil {
				fail("the error of a writer is lost")
			}
			s.done, s.part, s.end = true, true, err
		case how == 6:
			if w, ok := s.r.(io.WriterTo); ok {
				if _, err := w.WriteTo(&s.got); err != nil {
					fail("write: %v", err)
				}
				s.done = true
			}
		default:
			b := make([]byte, chunk)
			n, err := s.r.Read(b)
			s.got.Write(b[:n])
			if err != nil && err != io.EOF {
				fail("read: %v", err)
			}
			s.done = err == io.EOF
		}
		if s.done && !s.part && !bytes.Equal(s.got.Bytes(), s.data) {
			fail("%d bytes came back as %d other bytes", len(s.data), s.got.Len())
		}
	}
	for i := rapid.IntRange(10, 60).Draw(c.T, "turns"); i > 0; i-- {
		step(rapid.IntRange(0, len(ss)-1).Draw(c.T, "stream"), rapid.IntRange(0, 7).Draw(c.T, "how"))
	}
	for i, s := range ss {
		for j := 0; !s.done && j < 10000; j++ {
			step(i, 0)
		}
	}
	c.ClassIf(again > 0, "a stream is used after its end")
	c.Class("interleaved")
}

// TestArena: data of an arena stays as it is until the arena is released.
func TestArena(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		clock := kit.NewClock(c.T)
		g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 3, Lean: true, Time: func() uint64 { return uint64(clock.Any().UnixNano()) }}
		var msgs []*v1.Data
		for i := rapid.IntRange(1, 5).Draw(c.T, "messages"); i > 0; i-- {
			msgs = append(msgs, g.Data(kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "signal"))))
		}
		zip := make([]bool, len(msgs))
		for i := range msgs {
			zip[i] = rapid.Bool().Draw(c.T, "zip")
			c.Logf("%v %v", zip[i], msgs[i])
		}
		run := func() (err error) {
			a := arena.New()
			defer a.Release()
			out := make([][]byte, len(msgs))
			for i, m := range msgs {
				if zip[i] {
					out[i], err = a.Compress(m)
				} else {
					out[i], err = a.Marshal(m)
				}
				if err != nil {
					return
				}
			}
			w := a.NewWriter()
			w.Write([]byte("one"))
			w.Write([]byte("two"))
			last := a.Bytes()
			for i, m := range msgs {
				got := &v1.Data{}
				if zip[i] {
					err = x.Decompress(got)(out[i])
				} else {
					err = proto.Unmarshal(out[i], got)
				}
				if err != nil {
					return fmt.Errorf("message %d: %w", i, err)
				}
				if !proto.Equal(got, m) {
					return fmt.Errorf("message %d came back as %v", i, got)
				}
			}
			if string(last) != "onetwo" {
				return fmt.Errorf("wrote onetwo, have %q", last)
			}
			return nil
		}
		n := rapid.IntRange(1, 4).Draw(c.T, "clients")
		errs := make([]error, n)
		var wg sync.WaitGroup
		for j := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3 && errs[j] == nil; k++ {
					errs[j] = run()
				}
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				c.Fatalf("%v", err)
			}
		}
		c.ClassIf(n > 1, "parallel")
		c.NonTrivialIf(len(msgs) > 1)
	})
}
