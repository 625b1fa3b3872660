package mon

import (
	"errors"
	"io"

	"github.com/itstarsun/go-thrift/xverif/core"
)

// ChunkReader delivers Data in the chunks the plan prescribes.
type ChunkReader struct {
	Data []byte
	Plan func() int // size of the next chunk; 0 is an empty read; nil: as much as fits
	End  error      // delivered after the data; nil means io.EOF
	With bool       // deliver End together with the last bytes

	// Fault is delivered once, when the first FaultAt bytes have been; reading
	// goes on behind it. It comes alone: bufio.Reader.Discard forgets an error
	// that came with data when the stream goes on.
	Fault   error
	FaultAt int

	// Bounds are offsets no single Read crosses (message boundaries).
	Bounds []int

	// Due is the end of what is being read: reads when everything up to it has
	// been delivered are counted in Over.
	Due  int
	Over int

	Off       int
	Reads     int
	EmptyRun  int
	AfterData int // Read calls made when everything had been delivered
	AfterEnd  int // Read calls made after End had been returned
	ended     bool
	MaxReq    int
}

// TooManyReads stops a decoder that keeps reading after the end.
type TooManyReads struct{ N int }

const readLimit = 1000

func (c *ChunkReader) fault() error {
	err := c.Fault
	c.Fault = nil
	return err
}

func (c *ChunkReader) Read(p []byte) (int, error) {
	c.Reads++
	if c.Due > 0 && c.Off >= c.Due {
		c.Over++
	}
	if len(p) > c.MaxReq {
		c.MaxReq = len(p)
	}
	end := c.End
	if end == nil {
		end = io.EOF
	}
	if c.Fault != nil && c.Off == c.FaultAt {
		return 0, c.fault()
	}
	if c.Off >= len(c.Data) {
		c.AfterData++
		if c.ended {
			c.AfterEnd++
			if c.AfterEnd > readLimit {
				panic(TooManyReads{c.AfterEnd})
			}
		}
		c.ended = true
		return 0, end
	}
	n := len(p)
	if c.Plan != nil {
		if k := c.Plan(); k < n {
			n = k
		}
		if n == 0 && len(p) > 0 {
			c.EmptyRun++
			if c.EmptyRun <= 2 {
				return 0, nil
			}
			n = 1
		}
	}
	c.EmptyRun = 0
	if left := len(c.Data) - c.Off; n > left {
		n = left
	}
	if c.Fault != nil && c.Off < c.FaultAt && c.Off+n > c.FaultAt {
		n = c.FaultAt - c.Off
	}
	for _, b := range c.Bounds {
		if c.Off < b && c.Off+n > b {
			n = b - c.Off
		}
	}
	copy(p, c.Data[c.Off:c.Off+n])
	c.Off += n
	if c.With && c.Off == len(c.Data) {
		c.ended = true
		return n, end
	}
	return n, nil
}

// Plans of fragmentation.
func PlanOne() func() int { return func() int { return 1 } }

func PlanRandom(r *core.Rand) func() int {
	max := []int{1, 2, 3, 5, 16, 100, 4096, 5000}[r.Intn(8)]
	empty := r.P(1, 3)
	return func() int {
		if empty && r.P(1, 4) {
			return 0
		}
		return 1 + r.Intn(max)
	}
}

var ErrStream = errors.New("stream failure")
var ErrFlush = errors.New("flush failure")

// RecWriter records what reaches the underlying stream and can fail.
type RecWriter struct {
	Got     []byte
	Writes  int
	Flushes []int // bytes received at each Flush call

	Limit     int   // accept only this many bytes; -1: no limit
	LimitErr  error // error of the write that hits the limit; nil: short write with nil error
	Sticky    bool  // every write after the limit fails as well
	FlushErr  error
	FlushFail int // 1-based Flush call that fails; 0: none
	Faults    int // faults delivered
	hit       bool

	Hook func() // called before and behind every Write and Flush
}

func NewRec() *RecWriter { return &RecWriter{Limit: -1} }

func (w *RecWriter) Write(p []byte) (int, error) {
	if w.Hook != nil {
		w.Hook()
		defer w.Hook()
	}
	w.Writes++
	if w.Limit >= 0 && (!w.hit || w.Sticky) && len(w.Got)+len(p) > w.Limit {
		n := w.Limit - len(w.Got)
		if n < 0 {
			n = 0
		}
		w.Got = append(w.Got, p[:n]...)
		w.hit = true
		w.Faults++
		return n, w.LimitErr
	}
	w.Got = append(w.Got, p...)
	return len(p), nil
}

// FlushRec is a RecWriter with a Flush method.
type FlushRec struct{ *RecWriter }

func (w FlushRec) Flush() error {
	if w.Hook != nil {
		w.Hook()
		defer w.Hook()
	}
	w.Flushes = append(w.Flushes, len(w.Got))
	if w.FlushFail > 0 && len(w.Flushes) == w.FlushFail {
		w.Faults++
		return w.FlushErr
	}
	return nil
}
