package main

import (
	"encoding/binary"
	"encoding/hex"
	"io"
	"runtime"

	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/storage"
)

// A dump that exists nowhere: literal bytes and runs of objects, made while
// they are read. Now and then, when the parser asks for more, it is noted how
// many objects have been handed out, how many entries have been written to the
// indexes, and how much memory is held.
type plan struct {
	IdSize int
	Every  int   // objects between two notes
	Bytes  int64 // bytes between two notes
	Parts  []part
}

type part struct {
	Lit   string // bytes, in hexadecimal digits
	Times int    // repetitions of Lit, the number of each in its bytes At...
	At    int
	Kind  int // or a run of objects: 0 instances, 1 object arrays, 2 primitive arrays
	Of    string
	Type  int
	First uint64
	Step  uint64
	Count int
	N     uint32 // elements, or bytes of an instance
}

type note struct {
	Delivered [3]int `json:"delivered"`
	Written   [3]int `json:"written"`
	Heap      int    `json:"heap"` // KiB
	Kept      int    `json:"kept"` // KiB of literal bytes handed out
}

type counter struct {
	n      int
	closed bool
}

func (c *counter) Write(p []byte) (int, error) { c.n += len(p); return len(p), nil }
func (c *counter) Close() error                { c.closed = true; return nil }

type stream struct {
	p       *plan
	part    int
	i       int    // object or repetition in the part
	cur     []byte // head of the current object still to be handed out
	zeros   int64  // bytes of its payload still to be handed out
	kind    int    // of the current object, -1 none
	kept    int64
	count   [3]int
	noted   int // objects at the last note
	total   int
	bytes   int64
	atNote  int64
	out     [3]*counter
	base    uint64
	notes   []note
	scratch []byte
}

func (s *stream) next() bool {
	for s.part < len(s.p.Parts) {
		q := &s.p.Parts[s.part]
		if q.Lit != "" {
			if s.i >= max(q.Times, 1) {
				s.part, s.i = s.part+1, 0
				continue
			}
			if s.i == 0 {
				s.scratch, _ = hex.DecodeString(q.Lit)
			}
			if q.Times > 0 {
				binary.BigEndian.PutUint32(s.scratch[q.At:], uint32(s.i+1))
			}
			s.cur = s.scratch
			s.kept += int64(len(s.cur))
			s.i++
			return true
		}
		if s.i >= q.Count {
			s.part, s.i = s.part+1, 0
			continue
		}
		if s.i == 0 {
			s.scratch, _ = hex.DecodeString(q.Of)
			s.scratch = append(make([]byte, 32), s.scratch...)
		}
		of := s.scratch[32:]
		b := s.scratch[:0:32]
		var id [8]byte
		binary.BigEndian.PutUint64(id[:], q.First+uint64(s.i)*q.Step)
		b = append(b, byte(0x21+q.Kind))
		b = append(b, id[8-s.p.IdSize:]...)
		b = append(b, 0, 0, 0, 0)
		width := int64(1)
		switch q.Kind {
		case 0:
			b = append(b, of...)
			b = binary.BigEndian.AppendUint32(b, q.N)
		case 1:
			b = binary.BigEndian.AppendUint32(b, q.N)
			b = append(b, of...)
			width = int64(s.p.IdSize)
		case 2:
			b = binary.BigEndian.AppendUint32(b, q.N)
			b = append(b, byte(q.Type))
			width = map[int]int64{4: 1, 8: 1, 5: 2, 9: 2, 6: 4, 10: 4, 7: 8, 11: 8}[q.Type]
		}
		s.cur, s.zeros, s.kind = b, width*int64(q.N), q.Kind
		s.i++
		return true
	}
	return false
}

func (s *stream) note() {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	n := note{Delivered: s.count, Heap: int(int64(m.HeapAlloc)-int64(s.base)) >> 10, Kept: int(s.kept >> 10)}
	for k, o := range s.out {
		n.Written[k] = o.n / 16
	}
	s.notes = append(s.notes, n)
	s.noted, s.atNote = s.total, s.bytes
}

func (s *stream) Read(p []byte) (int, error) {
	if s.total-s.noted >= s.p.Every || s.bytes-s.atNote >= s.p.Bytes {
		s.note()
	}
	n := 0
	for n < len(p) {
		if len(s.cur) > 0 {
			c := copy(p[n:], s.cur)
			s.cur = s.cur[c:]
			n += c
			if len(s.cur) == 0 && s.kind >= 0 { // enough of an object to know it
				s.count[s.kind]++
				s.total++
				s.kind = -1
			}
		} else if s.zeros > 0 {
			c := int(min(s.zeros, int64(len(p)-n)))
			clear(p[n : n+c])
			s.zeros -= int64(c)
			n += c
		} else if !s.next() {
			break
		}
	}
	s.bytes += int64(n)
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func doPlan(q *request) any2 {
	return guard(func() any2 {
		s := &stream{p: q.Plan, kind: -1, out: [3]*counter{{}, {}, {}}}
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		s.base = m.HeapAlloc
		small := storage.NewSmallRecordsWriteStorage()
		meta := storage.NewMetaWriteStorage()
		big := storage.NewBigRecordsWriteStorage(s.out[0], s.out[1], s.out[2])
		err := dump.NewParser(s, small, big, meta).ParseHeapDump()
		s.note()
		r := any2{"notes": s.notes, "ok": err == nil, "closed": s.out[0].closed && s.out[1].closed && s.out[2].closed, "ragged": (s.out[0].n+s.out[1].n+s.out[2].n)%16 != 0, "mb": int(s.bytes >> 20)}
		if err != nil {
			r["err"] = err.Error()
		}
		runtime.KeepAlive(small)
		runtime.KeepAlive(meta)
		return r
	})
}
