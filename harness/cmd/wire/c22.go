package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/xverif/core"
	"github.com/itstarsun/go-thrift/xverif/gg"
	"github.com/itstarsun/go-thrift/xverif/mon"
	"github.com/itstarsun/go-thrift/xverif/tm"
)

// eofFor is what a helper that wanted more than the have bytes that were left
// reports when the stream ends with end (nil: io.EOF).
func eofFor(end error, have int) error {
	if end != nil {
		return end
	}
	if have == 0 {
		return io.EOF
	}
	return io.ErrUnexpectedEOF
}

// c22 compares the wire helpers with a direct model of the stream: a byte
// string and an offset.
func c22(c *core.Ctx) {
	c.Cases("stream", c.N(300000, 6000000), func(k *core.K) {
		r := k.R
		size := core.Pick(r, 16, 16, 17, 20, 32, 100, 4096)
		data := r.Bytes(r.Intn(3 * size))
		if r.P(1, 10) {
			data = r.Bytes(r.Intn(12000))
		}
		if r.Bool() { // plant varints
			for i := 0; i < 6 && len(data) > 0; i++ {
				v := binary.AppendUvarint(nil, uint64(gg.Int(r)))
				copy(data[r.Intn(len(data)):], v)
			}
		}
		src := &mon.ChunkReader{Data: data, With: r.Bool()}
		switch r.Intn(3) {
		case 0:
			src.Plan = mon.PlanOne()
		case 1:
			src.Plan = mon.PlanRandom(r)
		}
		if r.P(1, 3) {
			src.End = errorFor(r)
		}
		b := bufio.NewReaderSize(src, size)
		off := 0
		k.Note("buffer %d, %d bytes, end %v", size, len(data), src.End)
		sig := fmt.Sprint(size)
		for op := 0; op < 60; op++ {
			left := len(data) - off
			kind := r.Intn(5)
			n := 0
			switch r.Intn(6) {
			case 0:
				n = core.Pick(r, 0, 1, size-1, size, size+1, 2*size, 2*size+1)
			case 1:
				n = left + r.Intn(3) - 1
			default:
				n = r.Intn(size)
			}
			if n < 0 {
				n = 0
			}
			if kind == 0 && n > size {
				n = size
			}
			avail := n
			if avail > left {
				avail = left
			}
			var wantErr error
			if avail < n {
				wantErr = eofFor(src.End, avail)
			}
			want := data[off : off+avail]
			src.Due, src.Over = 0, 0
			due := func(end int) {
				if end <= len(data) && end > 0 {
					src.Due = end
				}
			}
			check := func(what string, got []byte, err error) {
				if !bytes.Equal(got, want) {
					k.Fail("%s: got %s, %v; want %s, %v", what, hexs(got), err, hexs(want), wantErr)
				}
				if wantErr == nil && err != nil || wantErr != nil && !mon.IsErr(err, wantErr) {
					k.Fail("%s with %d bytes left: error %v, want %v", what, left, err, wantErr)
				}
				if wantErr == io.ErrUnexpectedEOF && errors.Is(err, io.EOF) {
					k.Fail("%s with %d bytes left: error %v is io.EOF", what, left, err)
				}
				if src.Over > 0 {
					k.Fail("%s: asked the stream for more although all its bytes were there", what)
				}
				off += avail
			}
			what := ""
			switch kind {
			case 0:
				what = fmt.Sprintf("Next(%d)", n)
				due(off + n)
				buf, err := thriftwire.Next(b, n)
				check(what, buf, err)
			case 1:
				what = fmt.Sprintf("ReadString(%d)", n)
				due(off + n)
				s, err := thriftwire.ReadString(b, n)
				check(what, []byte(s), err)
			case 2:
				what = fmt.Sprintf("ReadBytes(%d)", n)
				due(off + n)
				pre := r.Bytes(r.Intn(5))
				arr := make([]byte, len(pre)+2+r.Intn(40))
				for i := range arr {
					arr[i] = 0xee
				}
				copy(arr[1:], pre)
				in := arr[1 : 1+len(pre) : 1+len(pre)+r.Intn(len(arr)-len(pre))]
				got, err := thriftwire.ReadBytes(b, n, in)
				if len(got) < len(pre) || !bytes.Equal(got[:len(pre)], pre) {
					k.Fail("%s: prefix %x not kept in %s", what, pre, hexs(got))
				}
				if !bytes.Equal(arr[1:1+len(pre)], pre) || arr[0] != 0xee {
					k.Fail("%s: changed the caller's prefix", what)
				}
				for i := 1 + cap(in); i < len(arr); i++ {
					if arr[i] != 0xee {
						k.Fail("%s: wrote beyond the capacity of the buffer", what)
					}
				}
				// The result belongs to the caller.
				tail := got[len(pre):]
				cp := append([]byte{}, tail...)
				for i := range tail {
					tail[i] ^= 0x5a
				}
				check(what, cp, err)
			default:
				// A varint: as encoding/binary reads it from the bytes.
				br := bytes.NewReader(data[off:])
				var x, y uint64
				var err, rerr error
				if kind == 3 {
					what = "ReadUvarint"
					y, rerr = binary.ReadUvarint(br)
				} else {
					what = "ReadVarint"
					var z int64
					z, rerr = binary.ReadVarint(br)
					y = uint64(z)
				}
				used := left - br.Len()
				if rerr == nil {
					due(off + used)
				}
				if kind == 3 {
					x, err = thriftwire.ReadUvarint(b)
				} else {
					var z int64
					z, err = thriftwire.ReadVarint(b)
					x = uint64(z)
				}
				bad := rerr != nil && rerr != io.EOF && rerr != io.ErrUnexpectedEOF
				switch {
				case rerr == nil && (err != nil || x != y):
					k.Fail("%s of %s: %d, %v; want %d", what, hexs(data[off:off+used]), x, err, y)
				case bad && err == nil:
					k.Fail("%s of %s: no error, want %v", what, hexs(data[off:off+used]), rerr)
				case bad && (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)):
					k.Fail("%s of %s: %v, want %v", what, hexs(data[off:off+used]), err, rerr)
				case rerr != nil && !bad && !mon.IsErr(err, eofFor(src.End, used)):
					k.Fail("%s of %s and then %v: error %v, want %v", what, hexs(data[off:]), src.End, err, eofFor(src.End, used))
				}
				if src.Over > 0 {
					k.Fail("%s: asked the stream for more although the varint was complete", what)
				}
				if bad {
					// Where an overlong varint leaves the stream is open.
					k.Count("overlong", 1)
					k.Hit(sig + what + "bad")
					return
				}
				k.Count("varints", 1)
				off += used
				if rerr != nil {
					wantErr = rerr
				}
			}
			k.Count("calls", 1)
			if wantErr != nil {
				k.Count("short_reads", 1)
			}
			sig += fmt.Sprintf(" %s/%d", what, off)
			if off == len(data) && wantErr != nil && r.P(2, 3) {
				break
			}
		}
		// What remains is still there.
		rest, _ := io.ReadAll(b) // the end may have been reported already
		if !bytes.Equal(rest, data[off:]) {
			k.Fail("%d bytes left on the stream, want %d", len(rest), len(data)-off)
		}
		k.Hit(sig)
		k.Sample("%s", short(sig))
	})

	c.Cases("headers", c.N(300000, 4000000), func(k *core.K) {
		r := k.R
		pre := r.Bytes(r.Intn(6))
		arr := make([]byte, len(pre), len(pre)+r.Intn(16))
		copy(arr, pre)
		t := tm.Types[r.Intn(len(tm.Types))]
		u := tm.Types[r.Intn(len(tm.Types))]
		size := r.Intn(20)
		switch r.Intn(3) {
		case 0:
			size = core.Pick(r, 0, 1, 13, 14, 15, 16, 127, 128, 16383, 16384, 1<<21-1, 1<<21, 1<<28-1, 1<<28, 1<<31-1)
		case 1:
			size = int(uint32(r.Uint64())>>1) >> r.Intn(31)
		}
		expect := func(what string, got []byte, err error, ref []byte, max int) []byte {
			if err != nil {
				k.Fail("%s: %v", what, err)
			}
			if len(got) < len(pre) || !bytes.Equal(got[:len(pre)], pre) || !bytes.Equal(arr[:len(pre)], pre) {
				k.Fail("%s: prefix %x not kept: %x", what, pre, got)
			}
			got = got[len(pre):]
			if !bytes.Equal(got, ref) {
				k.Fail("%s: %x, want %x", what, got, ref)
			}
			if len(got) > max {
				k.Fail("%s: %d bytes, published maximum %d", what, len(got), max)
			}
			k.Count("headers", 1)
			return got
		}
		after := r.Bytes(1 + r.Intn(5))
		open := func(b []byte) *bufio.Reader {
			src := &mon.ChunkReader{Data: append(append([]byte{}, b...), after...)}
			if r.Bool() {
				src.Plan = mon.PlanOne()
			}
			return bufio.NewReader(src)
		}
		rest := func(what string, b *bufio.Reader) {
			x, _ := io.ReadAll(b)
			if !bytes.Equal(x, after) {
				k.Fail("%s: left %x, want %x", what, x, after)
			}
		}
		wt, wu := thriftwire.Type(t), thriftwire.Type(u)
		ct, cu := tm.CompactCode(t), tm.CompactCode(u)
		kind := k.I % 4
		// Every proper prefix of a header is an error.
		short := func(what string, b []byte, f func(*bufio.Reader) error) {
			for i := range b {
				err := f(bufio.NewReader(bytes.NewReader(b[:i])))
				if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
					k.Fail("%s: first %d of %d bytes: error %v", what, i, len(b), err)
				}
				k.Count("truncated", 1)
			}
		}
		switch kind {
		case 0:
			what := fmt.Sprintf("map header %v %v %d", t, u, size)
			var ref []byte
			want := thriftwire.MapHeader{Key: wt, Value: wu, Size: size}
			if size == 0 {
				ref = []byte{0}
				want = thriftwire.MapHeader{}
			} else {
				ref = append(tm.Uvarint(nil, uint64(size)), ct<<4|cu)
			}
			got, err := thriftcompact.AppendMapHeader(arr, thriftwire.MapHeader{Key: wt, Value: wu, Size: size})
			b := expect(what, got, err, ref, thriftcompact.MaxMapHeaderSize)
			rd := open(b)
			h, err := thriftcompact.ReadMapHeader(rd)
			if err != nil || h != want {
				k.Fail("%s read back: %+v, %v", what, h, err)
			}
			rest(what, rd)
			short(what, b, func(b *bufio.Reader) error { _, err := thriftcompact.ReadMapHeader(b); return err })
		case 1, 2:
			var ref []byte
			if size < 15 {
				ref = []byte{byte(size)<<4 | ct}
			} else {
				ref = append([]byte{0xf0 | ct}, tm.Uvarint(nil, uint64(size))...)
			}
			if kind == 1 {
				what := fmt.Sprintf("set header %v %d", t, size)
				got, err := thriftcompact.AppendSetHeader(arr, thriftwire.SetHeader{Element: wt, Size: size})
				b := expect(what, got, err, ref, thriftcompact.MaxSetHeaderSize)
				rd := open(b)
				h, err := thriftcompact.ReadSetHeader(rd)
				if err != nil || h != (thriftwire.SetHeader{Element: wt, Size: size}) {
					k.Fail("%s read back: %+v, %v", what, h, err)
				}
				rest(what, rd)
				short(what, b, func(b *bufio.Reader) error { _, err := thriftcompact.ReadSetHeader(b); return err })
			} else {
				what := fmt.Sprintf("list header %v %d", t, size)
				got, err := thriftcompact.AppendListHeader(arr, thriftwire.ListHeader{Element: wt, Size: size})
				b := expect(what, got, err, ref, thriftcompact.MaxListHeaderSize)
				rd := open(b)
				h, err := thriftcompact.ReadListHeader(rd)
				if err != nil || h != (thriftwire.ListHeader{Element: wt, Size: size}) {
					k.Fail("%s read back: %+v, %v", what, h, err)
				}
				rest(what, rd)
				short(what, b, func(b *bufio.Reader) error { _, err := thriftcompact.ReadListHeader(b); return err })
			}
		case 3:
			last, id, isTrue := gg.ID(r), gg.ID(r), r.Bool()
			if r.Bool() {
				d := r.Intn(20) - 2
				if n := int(last) + d; n == int(int16(n)) {
					id = int16(n)
				}
			}
			what := fmt.Sprintf("field header %v %d after %d, true %v", t, id, last, isTrue)
			code := ct
			if t == tm.Bool && isTrue {
				code = 1
			}
			var ref []byte
			if d := int(id) - int(last); d >= 1 && d <= 15 {
				ref = []byte{byte(d)<<4 | code}
			} else {
				ref = tm.Zigzag([]byte{code}, int64(id))
			}
			got, err := thriftcompact.AppendFieldHeader(arr, thriftwire.FieldHeader{Name: "x", Type: wt, ID: id}, isTrue, last)
			b := expect(what, got, err, ref, thriftcompact.MaxFieldHeaderSize)
			// Read back after a field with id last.
			in := []byte{byte(tm.CompactCode(tm.Byte))}
			in = append(tm.Zigzag(in, int64(last)), 7)
			in = append(append(in, b...), after...)
			rd := thriftcompact.Protocol.NewReader(bytes.NewReader(in))
			rd.ReadStructBegin()
			if last != 0 {
				if h, err := rd.ReadFieldBegin(); err != nil || h.ID != last {
					k.Fail("%s: previous field read back as %+v, %v", what, h, err)
				}
				rd.ReadByte()
				rd.ReadFieldEnd()
			} else {
				rd = thriftcompact.Protocol.NewReader(bytes.NewReader(append(append([]byte{}, b...), after...)))
				rd.ReadStructBegin()
			}
			h, err := rd.ReadFieldBegin()
			if err != nil || h.ID != id || h.Type != wt {
				k.Fail("%s read back: %+v, %v", what, h, err)
			}
			if t == tm.Bool {
				if v, err := rd.ReadBool(); err != nil || v != isTrue {
					k.Fail("%s read back as %v, %v", what, v, err)
				}
			}
			for _, c := range after {
				if x, err := rd.ReadByte(); err != nil || x != c {
					k.Fail("%s: what follows was consumed", what)
				}
			}
		}
		k.Hit(fmt.Sprint(kind, t, u, size))
	})

	// Sizes beyond 32 bits.
	pows := append(powers(31, 62), bigSizeList...)
	c.Cases("sizes", 3*(len(pows)+600), func(k *core.K) {
		n := 1<<30 + int(k.R.Uint64()>>1>>k.R.Intn(32))
		if k.I/3 < len(pows) {
			n = pows[k.I/3]
		}
		n &= math.MaxInt // powers wrap around on 32-bit platforms
		t := thriftwire.Type(tm.Types[k.R.Intn(len(tm.Types))])
		pre := []byte("pre")
		var got []byte
		var err error
		switch k.I % 3 {
		case 0:
			got, err = thriftcompact.AppendMapHeader(pre, thriftwire.MapHeader{Key: t, Value: t, Size: n})
		case 1:
			got, err = thriftcompact.AppendSetHeader(pre, thriftwire.SetHeader{Element: t, Size: n})
		case 2:
			got, err = thriftcompact.AppendListHeader(pre, thriftwire.ListHeader{Element: t, Size: n})
		}
		what := []string{"map", "set", "list"}[k.I%3]
		if err == nil {
			// Written nevertheless: it must not be read as something else.
			if !bytes.HasPrefix(got, pre) || len(got)-len(pre) > thriftcompact.MaxMapHeaderSize {
				k.Fail("%s header with size %d: %x", what, n, got)
			}
			rd := bufio.NewReader(bytes.NewReader(got[len(pre):]))
			var back int
			switch k.I % 3 {
			case 0:
				var h thriftwire.MapHeader
				h, err = thriftcompact.ReadMapHeader(rd)
				back = h.Size
			case 1:
				var h thriftwire.SetHeader
				h, err = thriftcompact.ReadSetHeader(rd)
				back = h.Size
			case 2:
				var h thriftwire.ListHeader
				h, err = thriftcompact.ReadListHeader(rd)
				back = h.Size
			}
			if err == nil && back != n {
				k.Fail("%s header of type %v with size %d: written as %x, which is read as size %d", what, t, n, got, back)
			}
		}
		k.Count("oversized", 1)
		k.Hit(fmt.Sprint(k.I%3, n))
	})

	// Headers with type codes outside the protocol, or the stop code.
	c.Cases("codes", 256*3, func(k *core.K) {
		b := byte(k.I / 3)
		pos := k.I % 3
		n := 1 + k.R.Intn(300)
		var in []byte
		bad := func(x byte) bool { return x > 13 } // whether stop is refused here or later is open
		isBad := false
		size := 0
		switch pos {
		case 0:
			in = append(tm.Uvarint(nil, uint64(n)), b)
			isBad, size = bad(b>>4) || bad(b&15), n
		default:
			in = []byte{b}
			size = int(b >> 4)
			if b>>4 == 15 {
				in = tm.Uvarint(in, uint64(n))
				size = n
			}
			isBad = bad(b & 15)
		}
		if size == 0 {
			return
		}
		rd := bufio.NewReader(bytes.NewReader(append(in, 1, 2, 3)))
		var err error
		var h any
		var got int
		switch pos {
		case 0:
			var x thriftwire.MapHeader
			x, err = thriftcompact.ReadMapHeader(rd)
			h, got = x, x.Size
		case 1:
			var x thriftwire.SetHeader
			x, err = thriftcompact.ReadSetHeader(rd)
			h, got = x, x.Size
		case 2:
			var x thriftwire.ListHeader
			x, err = thriftcompact.ReadListHeader(rd)
			h, got = x, x.Size
		}
		what := []string{"map", "set", "list"}[pos]
		if isBad && err == nil {
			k.Fail("%s header %x has a type code outside the protocol and is read as %+v", what, in, h)
		}
		if !isBad && (err != nil || got != size) {
			k.Fail("%s header %x: %+v, %v; want size %d", what, in, h, err, size)
		}
		k.Count("type_codes", 1)
		k.Hit(fmt.Sprint("code", pos, b))
	})

	// Every type code.
	c.Cases("types", 256*4, func(k *core.K) {
		t := thriftwire.Type(k.I / 4)
		known := tm.Type(t).Valid()
		pre := []byte("pre")
		var got []byte
		var err error
		var what string
		size := 1 + k.R.Intn(40)
		switch k.I % 4 {
		case 0:
			what = "AppendMapHeader (key)"
			got, err = thriftcompact.AppendMapHeader(pre, thriftwire.MapHeader{Key: t, Value: thriftwire.I32, Size: size})
		case 1:
			what = "AppendMapHeader (value)"
			got, err = thriftcompact.AppendMapHeader(pre, thriftwire.MapHeader{Key: thriftwire.I32, Value: t, Size: size})
		case 2:
			what = "AppendSetHeader, AppendListHeader"
			got, err = thriftcompact.AppendSetHeader(pre, thriftwire.SetHeader{Element: t, Size: size})
			_, err2 := thriftcompact.AppendListHeader(pre, thriftwire.ListHeader{Element: t, Size: size})
			if (err == nil) != (err2 == nil) {
				k.Fail("type %d: AppendSetHeader: %v, AppendListHeader: %v", t, err, err2)
			}
		case 3:
			what = "AppendFieldHeader"
			if t == thriftwire.Stop {
				return
			}
			got, err = thriftcompact.AppendFieldHeader(pre, thriftwire.FieldHeader{Type: t, ID: int16(size)}, false, 0)
		}
		if known != (err == nil) {
			k.Fail("%s with type %d: error %v", what, t, err)
		}
		if !bytes.HasPrefix(got, pre) || string(pre) != "pre" {
			k.Fail("%s with type %d: prefix not kept", what, t)
		}
		k.Count("type_codes", 1)
		k.Hit(fmt.Sprint(t, k.I%4))
	})
}
