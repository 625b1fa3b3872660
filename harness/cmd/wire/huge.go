package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"runtime/debug"
	"strconv"
	"syscall"
	"unsafe"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/mon"
)

// lengthSink keeps the beginning of what is written and counts the rest.
type lengthSink struct {
	head []byte
	n    int
}

func (s *lengthSink) Write(p []byte) (int, error) {
	if len(s.head) < 64 {
		s.head = append(s.head, p[:min(len(p), 64)]...)
	}
	s.n += len(p)
	return len(p), nil
}

func (s *lengthSink) WriteString(p string) (int, error) {
	if len(s.head) < 64 {
		s.head = append(s.head, p[:min(len(p), 64)]...)
	}
	s.n += len(p)
	return len(p), nil
}

var hugeLens = ints(math.MaxInt32, math.MaxInt32+1, math.MaxUint32+6)

const hugeWays = 6

// huge writes strings that are as long as a 32-bit length can say, or longer.
// They are pages that are never touched.
func huge(c *core.Ctx, protos []mon.Proto) {
	// All in one case, so that no two processes have such strings at a time: a
	// writer may copy them.
	if strconv.IntSize == 32 {
		return // there is no room for them
	}
	c.Cases("huge", 1, func(k *core.K) {
		for _, p := range protos {
			for _, n := range hugeLens {
				for way := 0; way < hugeWays; way++ {
					if int64(n) != math.MaxInt32+1 && way > 0 || p.Name == "compact" && way > 1 {
						continue // they cost a lot if they are copied
					}
					hugeString(k, p, n, way)
					debug.FreeOSMemory()
				}
			}
		}
	})
}

func hugeString(k *core.K, p mon.Proto, n, way int) {
	mem, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		k.Count("no room for a huge string", 1)
		return
	}
	defer syscall.Munmap(mem)
	str := unsafe.String(&mem[0], n)
	var sink lengthSink
	w := p.P.NewWriter(&sink)
	// what is written in front of the length, and behind the string
	var before, behind []byte
	what := ""
	switch way {
	case 0:
		what, err = "WriteString", w.WriteString(str)
	case 1:
		what, err = "WriteBytes", w.WriteBytes(mem)
	case 2:
		what, err = "WriteMessageBegin", w.WriteMessageBegin(thriftwire.MessageHeader{Name: str, Type: thriftwire.Call, ID: 5})
		switch p.Name {
		case "binary":
			before, behind = []byte{0x80, 1, 0, 1}, []byte{0, 0, 0, 5}
		case "nonstrict":
			behind = []byte{1, 0, 0, 0, 5}
		case "compact":
			before = []byte{0x82, 0x21, 5}
		}
	case 3:
		what, err = "Marshal of a string", thrift.Marshal(w, &str)
	case 4:
		what, err = "Marshal of bytes", thrift.Marshal(w, &mem)
	case 5:
		what, err = "Marshal of a list of strings", thrift.Marshal(w, &[]string{str})
		before = []byte{11, 0, 0, 0, 1}
		if p.Name == "compact" {
			before = []byte{0x18}
		}
	}
	if err == nil {
		err = w.Flush()
	}
	if err == nil {
		want := before
		if p.Name == "compact" {
			want = binary.AppendUvarint(want, uint64(n))
		} else if n > math.MaxInt32 {
			k.Fail("%s: %s wrote %d bytes as % x... (%d bytes) without an error", p.Name, what, n, sink.head, sink.n)
		} else {
			want = binary.BigEndian.AppendUint32(want, uint32(n))
		}
		if !bytes.HasPrefix(append(sink.head, make([]byte, 64)...), want) || sink.n != len(want)+n+len(behind) {
			k.Fail("%s: %s wrote %d bytes as % x... (%d bytes), want % x...", p.Name, what, n, sink.head, sink.n, want)
		}
	} else if n <= math.MaxInt32 {
		k.Fail("%s: %s of %d bytes: %v", p.Name, what, n, err)
	}
	k.Count("huge_strings", 1)
	k.Max("string_bytes", int64(n))
	k.Hit(p.Name + what + string(rune(way)) + strconv.Itoa(n))
}
