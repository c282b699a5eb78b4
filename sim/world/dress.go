package world

import (
	"io"
	"syscall"

	"geosim/vsim"
)

// dressed is the source as the code under test gets to see it: many sources
// can do more than Read, and none of it says what is still to come.
func dressed(src io.Reader) io.Reader {
	b := byteSource{Reader: src}
	switch r := src.(type) {
	case *SimReader:
		switch r.d.Dress {
		case 1:
			return &arrived{b, r.arrived}
		case 2:
			return &stream{b, func() { r.sticky = io.ErrClosedPipe }}
		case 3:
			return &announced{b, r}
		case 4:
			return struct{ io.Reader }{r}
		}
	case *pipe:
		if r.d == nil {
			break
		}
		switch r.d.Dress {
		case 1:
			return &arrived{b, func() int { return len(r.buf) }}
		case 2:
			return &stream{b, func() {
				r.cutErr = io.ErrClosedPipe
				vsim.Wake()
			}}
		case 4:
			return struct{ io.Reader }{r}
		}
	}
	return src
}

// byteSource can be read by the byte, or all at once, as well.
type byteSource struct {
	io.Reader
	err error
}

func (b *byteSource) Read(p []byte) (int, error) {
	if err := b.err; err != nil {
		b.err = nil
		return 0, err
	}
	return b.Reader.Read(p)
}

func (b *byteSource) ReadByte() (byte, error) {
	var p [1]byte
	for {
		n, err := b.Read(p[:])
		if n > 0 {
			b.err = err
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (b *byteSource) WriteTo(w io.Writer) (sum int64, err error) {
	p := make([]byte, 512)
	for {
		n, err := b.Read(p)
		if n > 0 {
			m, werr := w.Write(p[:n])
			sum += int64(m)
			if werr != nil {
				return sum, werr
			}
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}

// arrived is a source like a buffer that somebody else fills: it tells how
// much of the text is there by now.
type arrived struct {
	byteSource
	n func() int
}

func (a *arrived) Len() int      { return a.n() }
func (a *arrived) Buffered() int { return a.Len() }

// stream is a source like a terminal or a connection.
type stream struct {
	byteSource
	end func()
}

func (s *stream) Seek(int64, int) (int64, error) { return 0, syscall.ESPIPE }
func (s *stream) Name() string                   { return "simulated" }
func (s *stream) Close() error {
	s.end()
	return nil
}

// announced is a source that knows how long the text is to be, whatever
// becomes of it.
type announced struct {
	byteSource
	r *SimReader
}

func (a *announced) Len() int    { return len(a.r.data) - a.r.pos }
func (a *announced) Size() int64 { return int64(len(a.r.data)) }

// arrived is the number of bytes that are there without waiting.
func (r *SimReader) arrived() int {
	if r.i >= len(r.d.Chunks) {
		return len(r.data) - r.pos
	}
	c := r.d.Chunks[r.i]
	if r.given == 0 && (c.Stall > 0 || c.Panic != "") {
		return 0
	}
	return max(0, min(c.N-r.given, len(r.data)-r.pos))
}
