// Executes requests of the C21 check through the Go package. Standard input: u32 length + request, standard output: u32 length + answer.
package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"io"
	"math"
	"os"
	"runtime"
	"unsafe"

	c "github.com/Toyz/concordia/go"
)

type rd struct {
	b []byte
	p int
}

func (r *rd) u8() uint8    { v := r.b[r.p]; r.p++; return v }
func (r *rd) u16() uint16  { v := binary.LittleEndian.Uint16(r.b[r.p:]); r.p += 2; return v }
func (r *rd) u32() uint32  { v := binary.LittleEndian.Uint32(r.b[r.p:]); r.p += 4; return v }
func (r *rd) blob() []byte { n := int(r.u32()); v := r.b[r.p : r.p+n : r.p+n]; r.p += n; return v }

type wr struct{ b []byte }

func (w *wr) u8(v uint8)    { w.b = append(w.b, v) }
func (w *wr) u16(v uint16)  { w.b = binary.LittleEndian.AppendUint16(w.b, v) }
func (w *wr) u32(v uint32)  { w.b = binary.LittleEndian.AppendUint32(w.b, v) }
func (w *wr) u64(v uint64)  { w.b = binary.LittleEndian.AppendUint64(w.b, v) }
func (w *wr) blob(v []byte) { w.u32(uint32(len(v))); w.b = append(w.b, v...) }

var sentinels = []error{c.GoErrOOB, c.GoErrInvalidOp, c.GoErrValidation, c.GoErrCallback, c.GoErrStackOverflow, c.GoErrStackUnderflow}

// 0: nil, 1..6 the sentinel of that code, 255 something else; and the text
func (w *wr) err(e error) {
	if e == nil {
		w.u8(0)
		w.blob(nil)
		return
	}
	k := uint8(255)
	for i, s := range sentinels {
		if errors.Is(e, s) {
			k = uint8(i + 1)
		}
	}
	w.u8(k)
	w.blob([]byte(e.Error()))
}

type rep struct {
	ret, kind, flags uint8
	data             []byte
}
type exec struct {
	slot, mode, flags uint8
	data              []byte
	reps              []rep
	w                 wr // callbacks
	n                 int
	before, after     func(i int) // the second when the callback has done its work
}

func (r *rd) exec() *exec {
	e := &exec{slot: r.u8(), mode: r.u8(), flags: r.u8()}
	e.data = r.blob()
	n := int(r.u16())
	for i := 0; i < n; i++ {
		e.reps = append(e.reps, rep{ret: r.u8(), kind: r.u8(), flags: r.u8(), data: r.blob()})
	}
	return e
}

func size(op c.OpCode) int {
	switch op {
	case c.OpIoU8, c.OpIoI8, c.OpIoBool, c.OpIoBitBool, c.OpArrPreU8:
		return 1
	case c.OpIoU16, c.OpIoI16, c.OpArrPreU16:
		return 2
	case c.OpIoU32, c.OpIoI32, c.OpIoF32, c.OpArrPreU32, c.OpArrFixed, c.OpArrEof, c.OpArrDynamic:
		return 4
	case c.OpIoU64, c.OpIoI64, c.OpIoF64, c.OpIoBitU, c.OpIoBitI, c.OpStoreCtx, c.OpLoadCtx, c.OpCtxQuery:
		return 8
	}
	return 0
}

var errHost = errors.New("host")

func (e *exec) cb(ctx *c.Context, key uint16, op c.OpCode, v c.Value) error {
	i := e.n
	e.n++
	if e.before != nil {
		e.before(i)
	}
	w := &e.w
	w.u16(key)
	w.u8(uint8(op))
	w.u8(uint8(ctx.Mode()))
	var val wr
	var r rep
	if i < len(e.reps) {
		r = e.reps[i]
	} else {
		r.ret = 1
	}
	n := 0
	if v.UnsafeAddr() != nil {
		n = size(op)
	}
	switch n {
	case 1:
		val.u64(uint64(v.Uint8()))
		val.u64(uint64(int64(v.Int8())))
		b := uint64(0)
		if v.Bool() {
			b = 1
		}
		val.u64(b)
	case 2:
		val.u64(uint64(v.Uint16()))
		val.u64(uint64(int64(v.Int16())))
	case 4:
		val.u64(uint64(v.Uint32()))
		val.u64(uint64(int64(v.Int32())))
		val.u64(uint64(math.Float32bits(v.Float32())))
	case 8:
		val.u64(v.Uint64())
		val.u64(uint64(v.Int64()))
		val.u64(math.Float64bits(v.Float64()))
	}
	text := op == c.OpStrNull || op == c.OpStrPreU8 || op == c.OpStrPreU16 || op == c.OpStrPreU32
	if text && ctx.Mode() == c.ModeDecode {
		val.b = append(val.b, v.String()...)
	}
	if r.kind == 4 { // bulk: read
		val.b = append(val.b, unsafe.Slice((*byte)(v.UnsafeAddr()), int(binary.LittleEndian.Uint32(r.data)))...)
	}
	w.blob(val.b)
	if e.flags&1 != 0 {
		runtime.GC()
	}
	switch r.kind {
	case 1:
		x := binary.LittleEndian.Uint64(r.data)
		switch op {
		case c.OpIoU8, c.OpArrPreU8:
			v.SetUint8(uint8(x))
		case c.OpIoI8:
			v.SetInt8(int8(x))
		case c.OpIoBool, c.OpIoBitBool:
			if x <= 1 {
				v.SetBool(x == 1)
			} else {
				v.SetUint8(uint8(x))
			}
		case c.OpIoU16, c.OpArrPreU16:
			v.SetUint16(uint16(x))
		case c.OpIoI16:
			v.SetInt16(int16(x))
		case c.OpIoU32, c.OpArrPreU32, c.OpArrFixed, c.OpArrEof, c.OpArrDynamic:
			v.SetUint32(uint32(x))
		case c.OpIoI32:
			v.SetInt32(int32(x))
		case c.OpIoF32:
			v.SetFloat32(math.Float32frombits(uint32(x)))
		case c.OpIoF64:
			v.SetFloat64(math.Float64frombits(x))
		case c.OpIoI64, c.OpIoBitI:
			v.SetInt64(int64(x))
		default:
			v.SetUint64(x)
		}
	case 2:
		if e.flags&4 != 0 {
			v.SetString("first thought, longer than the text that counts")
		}
		v.SetString(string(r.data))
	case 3:
		copy(unsafe.Slice((*byte)(v.UnsafeAddr()), len(r.data)), r.data)
	}
	if e.after != nil {
		e.after(i)
	}
	if e.flags&2 != 0 { // memory that was freed too early is likely to be used again
		runtime.GC()
	}
	if r.ret != 0 {
		return errHost
	}
	return nil
}

var slots [8]*c.Program

func (e *exec) run(w *wr) {
	data := append([]byte(nil), e.data...)
	err := slots[e.slot].Execute(data, c.Mode(e.mode), e.cb)
	w.err(err)
	w.blob(data)
	w.u32(uint32(e.n))
	w.b = append(w.b, e.w.b...)
}

func serve(r *rd, w *wr) {
	n := int(r.u32())
	for i := 0; i < n; i++ {
		switch r.u8() {
		case 'L':
			s := r.u8()
			p, err := c.LoadProgram(r.blob())
			if slots[s] != nil {
				slots[s].Close()
			}
			if err != nil && p != nil {
				w.err(errors.New("both a program and an error"))
			} else {
				w.err(err)
			}
			slots[s] = p
		case 'C':
			slots[r.u8()].Close()
		case 'N':
			s := r.u8()
			w.blob([]byte(slots[s].GetKeyName(r.u16())))
		case 'I':
			s := r.u8()
			w.u16(slots[s].GetKeyID(string(r.blob())))
		case 'E':
			r.exec().run(w)
		case 'X': // the function of the package
			prog := r.blob()
			e := r.exec()
			data := append([]byte(nil), e.data...)
			w.err(c.Execute(prog, data, c.Mode(e.mode), e.cb))
			w.blob(data)
			w.u32(uint32(e.n))
			w.b = append(w.b, e.w.b...)
		case 'T': // the second inside a callback of the first
			at, late := int(r.u16()), r.u8() != 0
			a, b := r.exec(), r.exec()
			var wb wr
			hook := func(i int) {
				if i == at {
					b.run(&wb)
				}
			}
			if late {
				a.after = hook
			} else {
				a.before = hook
			}
			a.run(w)
			w.b = append(w.b, wb.b...)
		case 'D': // many in each other, at a callback of each
			at, late, depth := int(r.u16()), r.u8() != 0, int(r.u16())
			a, b := r.exec(), r.exec()
			ws := make([]wr, depth)
			var level func(k int)
			level = func(k int) {
				x := *a
				if k%2 == 1 {
					x = *b
				}
				hook := func(i int) {
					if i == at && k+1 < depth {
						level(k + 1)
					}
				}
				if late {
					x.after = hook
				} else {
					x.before = hook
				}
				x.run(&ws[k])
			}
			level(0)
			for k := range ws {
				w.b = append(w.b, ws[k].b...)
			}
		case 'A': // many at the same time, each in a thread of its own, all stopped at a callback
			at, late, many := int(r.u16()), r.u8() != 0, int(r.u16())
			a, b := r.exec(), r.exec()
			ws := make([]wr, many)
			there, leave, end := make(chan bool), make(chan bool), make(chan bool)
			for k := 0; k < many; k++ {
				x := *a
				if k%2 == 1 {
					x = *b
				}
				k, arrived := k, false
				hook := func(i int) {
					if i == at {
						arrived = true
						there <- true
						<-leave
					}
				}
				if late {
					x.after = hook
				} else {
					x.before = hook
				}
				go func() {
					x.run(&ws[k])
					if !arrived {
						there <- true
					}
					end <- true
				}()
				<-there // one after the other up to here
			}
			close(leave)
			for k := 0; k < many; k++ {
				<-end
			}
			for k := range ws {
				w.b = append(w.b, ws[k].b...)
			}
		case 'P': // both under a schedule: who goes on to its next callback
			sched, late := r.blob(), r.u8() != 0
			x := [2]*exec{r.exec(), r.exec()}
			var ws [2]wr
			var done [2]bool
			var goOn, yield [2]chan bool
			for k := 0; k < 2; k++ {
				k := k
				goOn[k], yield[k] = make(chan bool), make(chan bool)
				hook := func(int) { yield[k] <- false; <-goOn[k] }
				if late {
					x[k].after = hook
				} else {
					x[k].before = hook
				}
				go func() {
					runtime.LockOSThread()
					<-goOn[k]
					x[k].run(&ws[k])
					yield[k] <- true
				}()
			}
			step := func(k int) {
				if !done[k] {
					goOn[k] <- true
					done[k] = <-yield[k]
				}
			}
			for _, k := range sched {
				step(int(k))
			}
			for k := 0; k < 2; k++ {
				for !done[k] {
					step(k)
				}
			}
			w.b = append(w.b, ws[0].b...)
			w.b = append(w.b, ws[1].b...)
		}
	}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	var h [4]byte
	for {
		if _, err := io.ReadFull(in, h[:]); err != nil {
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(h[:]))
		if _, err := io.ReadFull(in, b); err != nil {
			return
		}
		w := &wr{b: make([]byte, 4, 4096)}
		serve(&rd{b: b}, w)
		binary.LittleEndian.PutUint32(w.b, uint32(len(w.b)-4))
		if _, err := os.Stdout.Write(w.b); err != nil {
			return
		}
	}
}
