// Package models holds Go models of library code that the checker cannot interpret (reflection, system calls).
package models

import (
	"errors"
	"io"
	"net"
	"os"
	"time"
	"unicode/utf8"

	"github.com/lxdlam/vertex/pkg/log"
)

// FileInfo describes an in-memory file.
type FileInfo struct {
	size int64
	name string
}

func (f FileInfo) Name() string       { return f.name }
func (f FileInfo) Size() int64        { return f.size }
func (f FileInfo) Mode() os.FileMode  { return 0644 }
func (f FileInfo) ModTime() time.Time { return time.Time{} }
func (f FileInfo) IsDir() bool        { return false }
func (f FileInfo) Sys() interface{}   { return nil }

// RType stands for a reflect.Type.
type RType struct {
	Name  string
	ElemT *RType
}

// String gives the name of the type.
func (r *RType) String() string { return r.Name }

// Elem is what a pointer type points to.
func (r *RType) Elem() interface{} { return r.ElemT }

// CopyTo is (*os.File).ReadFrom.
func CopyTo(f *os.File, r io.Reader) (int64, error) {
	buf := make([]byte, 512)
	var n int64
	for {
		k, err := r.Read(buf)
		if k > 0 {
			w, werr := f.Write(buf[:k])
			n += int64(w)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// CopyFrom is (*os.File).WriteTo.
func CopyFrom(f *os.File, w io.Writer) (int64, error) {
	buf := make([]byte, 512)
	var n int64
	for {
		k, err := f.Read(buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// netError is an error of the network model.
type netError struct {
	op, msg string
	closed  bool
}

func (e *netError) Error() string   { return e.op + ": " + e.msg }
func (e *netError) Timeout() bool   { return false }
func (e *netError) Temporary() bool { return false }
func (e *netError) Unwrap() error {
	if e.closed {
		return net.ErrClosed
	}
	return nil
}

// NetError makes a network error.
func NetError(op, msg string, closed bool) error { return &netError{op, msg, closed} }

// NetAddr makes an address on this host.
func NetAddr(port int) net.Addr { return &net.TCPAddr{IP: net.IP{127, 0, 0, 1}, Port: port} }

// ConnFrom is (*net.TCPConn).ReadFrom.
func ConnFrom(c *net.TCPConn, r io.Reader) (int64, error) { return transfer(c, r) }

// ConnTo is (*net.TCPConn).WriteTo.
func ConnTo(c *net.TCPConn, w io.Writer) (int64, error) { return transfer(w, c) }

func transfer(w io.Writer, r io.Reader) (int64, error) {
	buf := make([]byte, 512)
	var n int64
	for {
		k, err := r.Read(buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

var errUTF8 = errors.New("proto: field contains invalid UTF-8")
var errWire = errors.New("proto: cannot parse invalid wire-format data")

func putVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func putString(b []byte, field uint64, s string) ([]byte, error) {
	if !utf8.ValidString(s) {
		return b, errUTF8
	}
	b = putVarint(b, field<<3|2)
	b = putVarint(b, uint64(len(s)))
	return append(b, s...), nil
}

func putBytes(b []byte, field uint64, s []byte) []byte {
	b = putVarint(b, field<<3|2)
	b = putVarint(b, uint64(len(s)))
	return append(b, s...)
}

// ProtoMarshal models proto.Marshal for *log.VertexLog.
func ProtoMarshal(m interface{}) ([]byte, error) {
	v, ok := m.(*log.VertexLog)
	if !ok || v == nil {
		return nil, nil
	}
	var b []byte
	var err error
	if v.Id != "" {
		if b, err = putString(b, 1, v.Id); err != nil {
			return nil, err
		}
	}
	if v.Time != 0 {
		b = putVarint(b, 2<<3)
		b = putVarint(b, uint64(v.Time))
	}
	if v.Host != "" {
		if b, err = putString(b, 3, v.Host); err != nil {
			return nil, err
		}
	}
	if v.Name != "" {
		if b, err = putString(b, 4, v.Name); err != nil {
			return nil, err
		}
	}
	if v.Index != 0 {
		b = putVarint(b, 5<<3)
		b = putVarint(b, uint64(int64(v.Index)))
	}
	for _, a := range v.Arguments {
		b = putBytes(b, 6, a)
	}
	if len(v.RawRequest) > 0 {
		b = putBytes(b, 255, v.RawRequest)
	}
	return b, nil
}

func getVarint(b []byte) (uint64, int) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		c := b[i]
		if i == 9 && c > 1 {
			return 0, -1
		}
		v |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return v, i + 1
		}
	}
	return 0, -1
}

func skipField(num uint64, typ uint64, b []byte) int {
	switch typ {
	case 0:
		_, n := getVarint(b)
		return n
	case 1:
		if len(b) < 8 {
			return -1
		}
		return 8
	case 5:
		if len(b) < 4 {
			return -1
		}
		return 4
	case 2:
		l, n := getVarint(b)
		if n < 0 || l > uint64(len(b)-n) {
			return -1
		}
		return n + int(l)
	case 3:
		n := 0
		for {
			tag, k := getVarint(b[n:])
			if k < 0 {
				return -1
			}
			n += k
			if tag>>3 == 0 || tag>>3 > 1<<29-1 {
				return -1
			}
			if tag&7 == 4 {
				if tag>>3 != num {
					return -1
				}
				return n
			}
			k = skipField(tag>>3, tag&7, b[n:])
			if k < 0 {
				return -1
			}
			n += k
		}
	}
	return -1
}

// ProtoUnmarshal models proto.Unmarshal into *log.VertexLog.
func ProtoUnmarshal(b []byte, m interface{}) error {
	v, ok := m.(*log.VertexLog)
	if !ok {
		return errWire
	}
	v.Id, v.Time, v.Host, v.Name, v.Index, v.Arguments, v.RawRequest = "", 0, "", "", 0, nil, nil
	for len(b) > 0 {
		tag, n := getVarint(b)
		if n < 0 {
			return errWire
		}
		b = b[n:]
		num, typ := tag>>3, tag&7
		if num == 0 || num > 1<<29-1 || typ == 4 {
			return errWire
		}
		switch {
		case typ == 2 && (num == 1 || num == 3 || num == 4 || num == 6 || num == 255):
			l, k := getVarint(b)
			if k < 0 || l > uint64(len(b)-k) {
				return errWire
			}
			s := string(b[k : k+int(l)])
			b = b[k+int(l):]
			if num != 6 && num != 255 && !utf8.ValidString(s) {
				return errUTF8
			}
			switch num {
			case 1:
				v.Id = s
			case 3:
				v.Host = s
			case 4:
				v.Name = s
			case 6:
				v.Arguments = append(v.Arguments, []byte(s))
			default:
				v.RawRequest = []byte(s)
			}
		case typ == 0 && (num == 2 || num == 5):
			x, k := getVarint(b)
			if k < 0 {
				return errWire
			}
			b = b[k:]
			if num == 2 {
				v.Time = int64(x)
			} else {
				v.Index = int32(x)
			}
		default:
			k := skipField(num, typ, b)
			if k < 0 {
				return errWire
			}
			b = b[k:]
		}
	}
	return nil
}
