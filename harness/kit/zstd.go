package kit

import (
	"io"

	"github.com/apache/arrow/go/v17/parquet/compress"
	"github.com/klauspost/compress/zstd"
)

// arrow builds a new encoder for each page of a parquet file, which takes 99%
// of the time of saving a sample. The codec of the checks writes the same
// format with one encoder.
type codec struct{}

var (
	enc, _ = zstd.NewWriter(nil, zstd.WithZeroFrames(true), zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithEncoderConcurrency(2), zstd.WithWindowSize(1<<16), zstd.WithLowerEncoderMem(true))
	dec, _ = zstd.NewReader(nil, zstd.WithDecoderConcurrency(2), zstd.WithDecoderLowmem(true))
)

func init() { compress.RegisterCodec(compress.Codecs.Zstd, codec{}) }

func (codec) Encode(dst, src []byte) []byte                 { return enc.EncodeAll(src, dst[:0]) }
func (codec) EncodeLevel(dst, src []byte, level int) []byte { return enc.EncodeAll(src, dst[:0]) }
func (codec) NewWriter(w io.Writer) io.WriteCloser          { ret, _ := zstd.NewWriter(w); return ret }
func (codec) NewWriterLevel(w io.Writer, level int) (io.WriteCloser, error) {
	return zstd.NewWriter(w)
}
func (codec) NewReader(r io.Reader) io.ReadCloser {
	ret, _ := zstd.NewReader(r)
	return ret.IOReadCloser()
}
func (codec) CompressBound(len int64) int64 { return len + len>>8 + 1<<10 }
func (codec) Decode(dst, src []byte) []byte {
	dst, err := dec.DecodeAll(src, dst[:0])
	if err != nil {
		panic(err)
	}
	return dst
}
