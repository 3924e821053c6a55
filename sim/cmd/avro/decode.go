package main

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"strings"
)

// An independent reader of Avro object container files, written from the specification.

var errEnd = errors.New("the data ends early")

type in struct{ b []byte }

func (r *in) take(n int) ([]byte, error) {
	if n < 0 || n > len(r.b) {
		return nil, errEnd
	}
	p := r.b[:n]
	r.b = r.b[n:]
	return p, nil
}

func (r *in) long() (int64, error) {
	var u uint64
	for shift := 0; shift < 70; shift += 7 {
		p, err := r.take(1)
		if err != nil {
			return 0, err
		}
		if shift == 63 && p[0] > 1 {
			break
		}
		u |= uint64(p[0]&0x7f) << shift
		if p[0]&0x80 == 0 {
			return int64(u>>1) ^ -int64(u&1), nil
		}
	}
	return 0, errors.New("a number is too long")
}

func (r *in) bytes() ([]byte, error) {
	n, err := r.long()
	if err != nil {
		return nil, err
	}
	if n < 0 || n > int64(len(r.b)) {
		return nil, errEnd
	}
	return r.take(int(n))
}

// blocks reads the blocks of an array or map.
func (r *in) blocks(item func() error) error {
	for {
		n, err := r.long()
		if err != nil {
			return err
		}
		if n == 0 {
			return nil
		}
		if n < 0 {
			n = -n
			if _, err := r.long(); err != nil {
				return err
			}
		}
		if n < 0 || n > 1<<24 {
			return errors.New("a block is too long")
		}
		for ; n > 0; n-- {
			if err := item(); err != nil {
				return err
			}
		}
	}
}

// record is a decoded record: field names and values. Values are nil, bool, int64, float64, string,
// []any, map[string]any (for maps) and record.
type record map[string]any

type schema struct {
	named map[string]any
}

func (s *schema) read(r *in, t any, space string) (any, error) {
	switch t := t.(type) {
	case string:
		switch t {
		case "null":
			return nil, nil
		case "boolean":
			p, err := r.take(1)
			if err != nil {
				return nil, err
			}
			if p[0] > 1 {
				return nil, errors.New("a boolean is neither true nor false")
			}
			return p[0] == 1, nil
		case "int", "long":
			return r.long()
		case "float":
			p, err := r.take(4)
			if err != nil {
				return nil, err
			}
			return float64(math.Float32frombits(binary.LittleEndian.Uint32(p))), nil
		case "double":
			p, err := r.take(8)
			if err != nil {
				return nil, err
			}
			return math.Float64frombits(binary.LittleEndian.Uint64(p)), nil
		case "bytes", "string":
			p, err := r.bytes()
			return string(p), err
		}
		for _, n := range []string{space + "." + t, t} {
			if d, ok := s.named[n]; ok {
				return s.read(r, d, space)
			}
		}
		return nil, fmt.Errorf("type %q is not known", t)
	case []any:
		n, err := r.long()
		if err != nil {
			return nil, err
		}
		if n < 0 || n >= int64(len(t)) {
			return nil, errors.New("a union has no such branch")
		}
		return s.read(r, t[n], space)
	case map[string]any:
		switch k := t["type"].(type) {
		case string:
			switch k {
			case "record":
				name, _ := t["name"].(string)
				if ns, ok := t["namespace"].(string); ok {
					space = ns
				}
				s.named[name], s.named[space+"."+name] = t, t
				out := record{}
				fields, _ := t["fields"].([]any)
				for _, f := range fields {
					f, _ := f.(map[string]any)
					fn, ok := f["name"].(string)
					if !ok {
						return nil, errors.New("a field without a name")
					}
					v, err := s.read(r, f["type"], space)
					if err != nil {
						return nil, fmt.Errorf("%s: %w", fn, err)
					}
					if _, ok := out[fn]; ok {
						return nil, fmt.Errorf("two fields %q", fn)
					}
					out[fn] = v
				}
				return out, nil
			case "array":
				out := []any{}
				err := r.blocks(func() error {
					v, err := s.read(r, t["items"], space)
					out = append(out, v)
					return err
				})
				return out, err
			case "map":
				out := map[string]any{}
				err := r.blocks(func() error {
					k, err := r.bytes()
					if err != nil {
						return err
					}
					v, err := s.read(r, t["values"], space)
					out[string(k)] = v
					return err
				})
				return out, err
			}
			return s.read(r, k, space)
		default:
			return s.read(r, t["type"], space)
		}
	}
	return nil, fmt.Errorf("unknown schema %v", t)
}

// decodeContainer decodes a complete container file.
func decodeContainer(b []byte) (recs []record, err error) {
	r := &in{b}
	magic, err := r.take(4)
	if err != nil {
		return nil, err
	}
	if string(magic) != "Obj\x01" {
		return nil, errors.New("not a container file")
	}
	meta := map[string]string{}
	err = r.blocks(func() error {
		k, err := r.bytes()
		if err != nil {
			return err
		}
		v, err := r.bytes()
		meta[string(k)] = string(v)
		return err
	})
	if err != nil {
		return nil, fmt.Errorf("header: %w", err)
	}
	sync, err := r.take(16)
	if err != nil {
		return nil, fmt.Errorf("header: %w", err)
	}
	var t any
	dec := json.NewDecoder(strings.NewReader(meta["avro.schema"]))
	if err := dec.Decode(&t); err != nil {
		return nil, fmt.Errorf("schema: %w", err)
	}
	for len(r.b) > 0 {
		n, err := r.long()
		if err != nil {
			return recs, err
		}
		data, err := r.bytes()
		if err != nil {
			return recs, err
		}
		mark, err := r.take(16)
		if err != nil {
			return recs, err
		}
		if !bytes.Equal(mark, sync) {
			return recs, errors.New("a block does not end with the marker")
		}
		switch c := meta["avro.codec"]; c {
		case "", "null":
		case "deflate":
			if data, err = io.ReadAll(flate.NewReader(bytes.NewReader(data))); err != nil {
				return recs, err
			}
		case "snappy":
			if data, err = unsnappy(data); err != nil {
				return recs, err
			}
		default:
			return recs, fmt.Errorf("codec %q", c)
		}
		br := &in{data}
		for ; n > 0; n-- {
			s := &schema{named: map[string]any{}}
			v, err := s.read(br, t, "")
			if err != nil {
				return recs, err
			}
			rec, ok := v.(record)
			if !ok {
				return recs, errors.New("not a record")
			}
			recs = append(recs, rec)
		}
		if len(br.b) > 0 {
			return recs, errors.New("a block has data after its records")
		}
	}
	return recs, nil
}

// unsnappy decodes a block compressed with snappy and followed by its checksum.
func unsnappy(b []byte) ([]byte, error) {
	if len(b) < 4 {
		return nil, errEnd
	}
	sum := binary.BigEndian.Uint32(b[len(b)-4:])
	b = b[:len(b)-4]
	size, n := binary.Uvarint(b)
	if n <= 0 || size > 1<<28 {
		return nil, errors.New("snappy: bad length")
	}
	b = b[n:]
	out := make([]byte, 0, size)
	for len(b) > 0 {
		tag := b[0]
		b = b[1:]
		var length, offset int
		extra := 0
		switch tag & 3 {
		case 0:
			length = int(tag >> 2)
			if length >= 60 {
				extra = length - 59
				if len(b) < extra {
					return nil, errEnd
				}
				length = 0
				for i := extra - 1; i >= 0; i-- {
					length = length<<8 | int(b[i])
				}
			}
			length++
			b = b[extra:]
			if length > len(b) {
				return nil, errEnd
			}
			out = append(out, b[:length]...)
			b = b[length:]
			continue
		case 1:
			if len(b) < 1 {
				return nil, errEnd
			}
			length, offset = 4+int(tag>>2&7), int(tag>>5)<<8|int(b[0])
			b = b[1:]
		case 2:
			if len(b) < 2 {
				return nil, errEnd
			}
			length, offset = 1+int(tag>>2), int(binary.LittleEndian.Uint16(b))
			b = b[2:]
		case 3:
			if len(b) < 4 {
				return nil, errEnd
			}
			length, offset = 1+int(tag>>2), int(binary.LittleEndian.Uint32(b))
			b = b[4:]
		}
		if offset <= 0 || offset > len(out) {
			return nil, errors.New("snappy: bad offset")
		}
		for ; length > 0; length-- {
			out = append(out, out[len(out)-offset])
		}
	}
	if uint64(len(out)) != size {
		return nil, errors.New("snappy: the length differs")
	}
	if crc32.ChecksumIEEE(out) != sum {
		return nil, errors.New("the checksum of a block differs")
	}
	return out, nil
}
