// Driver of the real code: executes requests (one JSON object per line on
// standard input) and reports what the code did (one JSON object per line on
// standard output). It is compiled into the module under test by an overlay.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"testing/iotest"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/format"
	"github.com/danielleontiev/neojhat/internal/java"
	"github.com/danielleontiev/neojhat/internal/storage"
)

type bs []int // bytes as JSON numbers

func toBs(b []byte) bs {
	r := make(bs, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func (b bs) bytes() []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x)
	}
	return r
}

func (b bs) num() uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func num(v uint64, n int) bs {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return toBs(b[8-n:])
}

type request struct {
	Op    string
	File  string
	Chunk int
	Gets  []bs
	Small *struct {
		Names, Frames, Traces, Classes, LoadIds, LoadSerials []bs
	}
	Fields []struct {
		Id   bs
		Name bs
	}
	Elems   []bs
	Strings []bs
	Sigs    []bs
	Classes []bs
	Sizes   []uint64
	Puts    [][2]uint64
	Batch   int
	Queries []uint64
	Raw     bs
	Plan    *plan
}

type any2 = map[string]any

// --- indexing ---------------------------------------------------------------

type session struct {
	small *storage.SmallRecordsReadStorage
	acc   *dump.ParsedAccessor
	heap  *java.Heap
	idn   int
}

func reader(data io.ReaderAt, size int64, chunk int) io.Reader {
	r := io.Reader(io.NewSectionReader(data, 0, size))
	switch {
	case chunk == 1:
		return iotest.OneByteReader(r)
	case chunk == 2:
		return iotest.HalfReader(r)
	case chunk == 3:
		return iotest.DataErrReader(r)
	case chunk > 3:
		return &chunked{r, chunk, 1}
	}
	return r
}

// chunked delivers pieces of varying size
type chunked struct {
	r    io.Reader
	max  int
	seed int
}

func (c *chunked) Read(p []byte) (int, error) {
	c.seed = (c.seed*1103515245 + 12345) & 0x7fffffff
	n := 1 + (c.seed>>8)%c.max
	if n > len(p) {
		n = len(p)
	}
	return c.r.Read(p[:n])
}

func index(data io.ReaderAt, size int64, chunk int) (s *session, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v", r)
		}
	}()
	small := storage.NewSmallRecordsWriteStorage()
	meta := storage.NewMetaWriteStorage()
	inst, oarr, parr := storage.NewRamWriteVolume(), storage.NewRamWriteVolume(), storage.NewRamWriteVolume()
	big := storage.NewBigRecordsWriteStorage(inst, oarr, parr)
	if err := dump.NewParser(reader(data, size, chunk), small, big, meta).ParseHeapDump(); err != nil {
		return nil, err
	}
	var sb, mb bytes.Buffer
	if err := small.SerializeTo(&sb); err != nil {
		return nil, err
	}
	if err := meta.SerializeTo(&mb); err != nil {
		return nil, err
	}
	sr, mr := storage.NewSmallRecordsReadStorage(), storage.NewMetaReadStorage()
	if err := sr.RestoreFrom(&sb); err != nil {
		return nil, err
	}
	if err := mr.RestoreFrom(&mb); err != nil {
		return nil, err
	}
	br, err := storage.NewBigRecordsReadStorage(
		storage.NewRamReadVolume(inst.Bytes()), inst.Len(),
		storage.NewRamReadVolume(oarr.Bytes()), oarr.Len(),
		storage.NewRamReadVolume(parr.Bytes()), parr.Len())
	if err != nil {
		return nil, err
	}
	acc := dump.NewParsedAccessor(io.NewSectionReader(data, 0, size), br, sr, mr)
	return &session{small: sr, acc: acc, heap: java.NewHeap(acc), idn: int(acc.IdentifierSize)}, nil
}

func (s *session) width(t core.JavaType) int {
	switch t {
	case core.Object:
		return s.idn
	case core.Boolean, core.Byte:
		return 1
	case core.Char, core.Short:
		return 2
	case core.Float, core.Int:
		return 4
	}
	return 8
}

// value as big-endian bytes of its type
func (s *session) value(v core.JavaValue) bs {
	switch x := v.Value.(type) {
	case core.Identifier:
		return num(uint64(x), s.idn)
	case bool:
		if x {
			return bs{1}
		}
		return bs{0}
	case float32:
		if x != x {
			return num(0x7fc00000, 4)
		}
		return num(uint64(math.Float32bits(x)), 4)
	case float64:
		if x != x {
			return num(0x7ff8000000000000, 8)
		}
		return num(math.Float64bits(x), 8)
	case string: // a char is kept as its two bytes
		return toBs([]byte(x))
	case nil:
		return bs{}
	}
	var buf bytes.Buffer
	if err := binary.Write(&buf, binary.BigEndian, v.Value); err != nil {
		return bs{-1}
	}
	return toBs(buf.Bytes())
}

func (s *session) get(id bs) any2 {
	i := core.Identifier(id.num())
	none := any2{"found": false}
	inst, oarr, parr := none, none, none
	if r, err := s.acc.GetHprofGcInstanceDump(i); err == nil {
		data, err := s.acc.GetBytesFromCurrent(int(r.NumberOfBytesThatFollow))
		inst = any2{"found": true, "id": num(uint64(r.ObjectId), s.idn), "cls": num(uint64(r.ClassObjectId), s.idn),
			"trace": num(uint64(r.StackTraceSerialNumber), 4), "data": toBs(data), "err": err != nil}
	}
	if r, err := s.acc.GetHprofGcObjArray(i); err == nil {
		data, err := s.acc.GetBytesFromCurrent(int(r.NumberOfElements) * s.idn)
		oarr = any2{"found": true, "cls": num(uint64(r.ArrayClassId), s.idn), "n": r.NumberOfElements,
			"trace": num(uint64(r.StackTraceSerialNumber), 4), "data": toBs(data), "err": err != nil}
	}
	if r, err := s.acc.GetHprofGcPrimArray(i); err == nil {
		data, err := s.acc.GetBytesFromCurrent(int(r.NumberOfElements) * s.width(r.ElementType))
		parr = any2{"found": true, "ty": int(r.ElementType), "n": r.NumberOfElements,
			"trace": num(uint64(r.StackTraceSerialNumber), 4), "data": toBs(data), "err": err != nil}
	}
	return any2{"kind": "get", "id": id, "inst": inst, "oarr": oarr, "parr": parr}
}

func (s *session) smallObs(q *request) any2 {
	id := func(x core.Identifier) bs { return num(uint64(x), s.idn) }
	u4 := func(x uint32) bs { return num(uint64(x), 4) }
	names, frames, traces, classes, loads, roots := []any{}, []any{}, []any{}, []any{}, []any{}, []any{}
	for _, x := range q.Small.Names {
		r, err := s.acc.GetHprofUtf8(core.Identifier(x.num()))
		names = append(names, any2{"id": x, "found": err == nil, "text": toBs([]byte(r.Characters))})
	}
	for _, x := range q.Small.Frames {
		r, err := s.acc.GetHprofFrame(core.Identifier(x.num()))
		frames = append(frames, any2{"id": x, "found": err == nil, "method": id(r.MethodNameId), "sig": id(r.MethodSignatureId),
			"source": id(r.SourceFileNameId), "cls": u4(r.ClassSerialNumber), "line": u4(uint32(r.LineNumber))})
	}
	for _, x := range q.Small.Traces {
		r, err := s.acc.GetHprofTrace(uint32(x.num()))
		fs := []bs{}
		for _, f := range r.StackFrameIds {
			fs = append(fs, id(f))
		}
		if err == nil && int(r.NumberOfFrames) != len(fs) {
			fs = append(fs, bs{-1})
		}
		traces = append(traces, any2{"id": x, "found": err == nil, "serial": u4(r.StackTraceSerialNumber), "thread": u4(r.ThreadSerialNumber), "frames": fs})
	}
	for _, x := range q.Small.Classes {
		r, err := s.acc.GetHprofGcClassDump(core.Identifier(x.num()))
		pool, statics, fields := []any{}, []any{}, []any{}
		for _, e := range r.ConstantPoolRecords {
			pool = append(pool, []any{num(uint64(e.ConstantPoolIndex), 2), int(e.Ty), s.value(e.Value)})
		}
		for _, e := range r.StaticFieldRecords {
			statics = append(statics, []any{id(e.StaticFieldName), int(e.Ty), s.value(e.Value)})
		}
		for _, e := range r.InstanceFieldRecords {
			fields = append(fields, []any{id(e.InstanceFieldName), int(e.Ty)})
		}
		classes = append(classes, any2{"id": x, "found": err == nil, "trace": u4(r.StackTraceSerialNumber), "super": id(r.SuperclassObjectId),
			"loader": id(r.ClassloaderObjectId), "signers": id(r.SignersObjectId), "domain": id(r.ProtectionDomainObjectId),
			"size": u4(uint32(r.InstanceSize)), "pool": pool, "statics": statics, "fields": fields})
	}
	load := func(by string, x bs, r core.HprofLoadClass, err error) {
		loads = append(loads, any2{"by": by, "id": x, "found": err == nil, "serial": u4(r.ClassSerialNumber), "cls": id(r.ClassObjectId),
			"trace": u4(r.StackTraceSerialNumber), "name": id(r.ClassNameId)})
	}
	for _, x := range q.Small.LoadIds {
		r, err := s.acc.GetHprofLoadClassByClassObjectId(core.Identifier(x.num()))
		load("id", x, r, err)
	}
	for _, x := range q.Small.LoadSerials {
		r, err := s.acc.GetHprofLoadClassByClassSerialNumer(uint32(x.num()))
		load("serial", x, r, err)
	}
	var g, l, f, st, t = []any{}, []any{}, []any{}, []any{}, []any{}
	for _, r := range s.acc.ListHprofGcRootJniGlobal() {
		g = append(g, []bs{id(r.ObjectId), id(r.JniGlobalRefId)})
	}
	for _, r := range s.acc.ListHprofGcRootJniLocal() {
		l = append(l, []bs{id(r.ObjectId), u4(r.ThreadSerialNumber), u4(r.FrameNumberInStackTrace)})
	}
	for _, r := range s.acc.ListHprofGcRootJavaFrame() {
		f = append(f, []bs{id(r.ObjectId), u4(r.ThreadSerialNumber), u4(r.FrameNumberInStackTrace)})
	}
	for _, r := range s.acc.ListHprofGcRootStickyClass() {
		st = append(st, []bs{id(r.ObjectId)})
	}
	for _, r := range s.acc.ListHprofGcRootThreadObj() {
		t = append(t, []bs{id(r.ThreadObjectId), u4(r.ThreadSequenceNumber), u4(r.StackTraceSequenceNumber)})
	}
	for k, list := range map[int][]any{1: g, 2: l, 3: f, 5: st, 8: t} {
		roots = append(roots, any2{"kind": k, "list": list})
	}
	return any2{"kind": "small", "idsize": s.idn, "time": num(uint64(s.small.Timestamp.UnixMilli()), 8),
		"names": names, "frames": frames, "traces": traces, "classes": classes, "loads": loads, "roots": roots}
}

func (s *session) field(id, name bs) any2 {
	o := any2{"kind": "field", "id": id, "name": name, "found": false, "ty": 0, "val": bs{}, "origin": bs{}}
	obj, err := s.heap.ParseNormalObject(core.Identifier(id.num()))
	if err != nil {
		return o
	}
	v, err := obj.GetFieldValueByName(string(name.bytes()))
	if err != nil {
		return o
	}
	o["found"], o["ty"], o["val"], o["origin"] = true, int(v.Value.Type), s.value(v.Value), toBs([]byte(v.Origin))
	return o
}

func (s *session) elems(id bs) any2 {
	o := any2{"kind": "elems", "id": id, "found": false, "elems": []bs{}, "cls": bs{}}
	a, err := s.heap.ParseObjectArrayFull(core.Identifier(id.num()))
	if err != nil {
		return o
	}
	es := []bs{}
	for _, e := range a.Elements {
		es = append(es, num(uint64(e), s.idn))
	}
	o["found"], o["elems"], o["cls"] = true, es, num(uint64(a.ArrayClassId), s.idn)
	return o
}

func (s *session) str(id bs) any2 {
	t, err := s.heap.ParseJavaString(core.JavaValue{Type: core.Object, Value: core.Identifier(id.num())})
	return any2{"kind": "string", "id": id, "found": err == nil, "text": toBs([]byte(t))}
}

func guard(f func() any2) (r any2) {
	defer func() {
		if p := recover(); p != nil {
			r = any2{"kind": "panic", "panic": fmt.Sprint(p)}
		}
	}()
	return f()
}

func doIndex(q *request) any2 {
	f, err := os.Open(q.File)
	if err != nil {
		return any2{"error": err.Error()}
	}
	defer f.Close()
	stat, err := f.Stat()
	if err != nil {
		return any2{"error": err.Error()}
	}
	src := io.ReaderAt(f)
	if stat.Size() < 1<<26 {
		b, err := io.ReadAll(f)
		if err != nil {
			return any2{"error": err.Error()}
		}
		src = bytes.NewReader(b)
	}
	s, err := index(src, stat.Size(), q.Chunk)
	if err != nil {
		return any2{"ok": false, "err": err.Error(), "obs": []any{}}
	}
	obs := []any{}
	if q.Small != nil {
		obs = append(obs, guard(func() any2 { return s.smallObs(q) }))
	}
	for _, g := range q.Gets {
		obs = append(obs, guard(func() any2 { return s.get(g) }))
	}
	for _, f := range q.Fields {
		obs = append(obs, guard(func() any2 { return s.field(f.Id, f.Name) }))
	}
	for _, e := range q.Elems {
		obs = append(obs, guard(func() any2 { return s.elems(e) }))
	}
	for _, x := range q.Strings {
		obs = append(obs, guard(func() any2 { return s.str(x) }))
	}
	return any2{"ok": true, "err": "", "obs": obs}
}

// lengths of the prefixes of the dump that are accepted, and of the ones that crash
func doPrefixes(q *request) any2 {
	data, err := os.ReadFile(q.File)
	if err != nil {
		return any2{"error": err.Error()}
	}
	accepted, panics := []int{}, []int{}
	for n := 0; n <= len(data); n++ {
		_, err := index(bytes.NewReader(data), int64(n), q.Chunk)
		if err == nil {
			accepted = append(accepted, n)
		} else if len(err.Error()) > 6 && err.Error()[:6] == "PANIC:" {
			panics = append(panics, n)
		}
	}
	return any2{"accepted": accepted, "panics": panics}
}

func doFormat(q *request) any2 {
	obs := []any{}
	for _, s := range q.Sigs {
		obs = append(obs, guard(func() any2 {
			a, r := format.Signature(string(s.bytes()))
			return any2{"kind": "sig", "in": s, "args": toBs([]byte(a)), "ret": toBs([]byte(r))}
		}))
	}
	for _, s := range q.Classes {
		obs = append(obs, guard(func() any2 {
			return any2{"kind": "class", "in": s, "out": toBs([]byte(format.ClassName(string(s.bytes()))))}
		}))
	}
	for _, n := range q.Sizes {
		obs = append(obs, guard(func() any2 {
			return any2{"kind": "size", "in": num(n, 8), "out": toBs([]byte(format.Size(int(n))))}
		}))
	}
	return any2{"obs": obs}
}

// --- index store ------------------------------------------------------------

type sink struct {
	bytes.Buffer
	writes []int
	closed int
}

func (s *sink) Write(p []byte) (int, error) {
	s.writes = append(s.writes, len(p))
	return s.Buffer.Write(p)
}
func (s *sink) Close() error { s.closed++; return nil }

func doStore(q *request) any2 {
	return guard(func() any2 {
		k := &sink{}
		w := storage.NewIndexRecordsWriteStorage(k, storage.BatchSize(q.Batch))
		puts, pending := []any{}, 0
		for _, p := range q.Puts {
			err := w.Put(p[0], p[1])
			puts = append(puts, any2{"ok": err == nil, "written": k.Len() / 16})
			if err != nil {
				break
			}
		}
		_ = pending
		cerr := w.Close()
		entries := []any{}
		b := k.Bytes()
		for i := 0; i+16 <= len(b); i += 16 {
			entries = append(entries, []bs{toBs(b[i : i+8]), toBs(b[i+8 : i+16])})
		}
		gets := []any{}
		r, err := storage.NewIndexRecordsReadStorage(storage.NewRamReadVolume(b), len(b))
		if err == nil {
			for _, x := range q.Queries {
				v, err := r.Get(x)
				gets = append(gets, any2{"key": num(x, 8), "found": err == nil, "val": num(v, 8)})
			}
		}
		ragged := []int{}
		for n := 0; n <= len(b) && n <= 40; n++ {
			if _, err := storage.NewIndexRecordsReadStorage(storage.NewRamReadVolume(b[:n]), n); err == nil {
				ragged = append(ragged, n)
			}
		}
		return any2{"puts": puts, "closed": cerr == nil && k.closed == 1, "open": err == nil, "entries": entries, "gets": gets, "sizes": ragged,
			"probed": min(len(b), 40), "bytes": len(b)}
	})
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			var q request
			var r any2
			if e := json.Unmarshal(line, &q); e != nil {
				r = any2{"error": e.Error()}
			} else {
				switch q.Op {
				case "index":
					r = doIndex(&q)
				case "prefixes":
					r = doPrefixes(&q)
				case "format":
					r = doFormat(&q)
				case "store":
					r = doStore(&q)
				case "plan":
					r = doPlan(&q)
				default:
					r = any2{"error": "unknown op"}
				}
			}
			j, e := json.Marshal(r)
			if e != nil {
				j = []byte(`{"error":"marshal"}`)
			}
			out.Write(j)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			if !errors.Is(err, io.EOF) {
				os.Exit(3)
			}
			return
		}
	}
}
