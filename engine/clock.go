package main

// Model of the clock. Inside nd.FakeClock the current time is a term that only advances when the code
// sleeps, and instants are compared using only their monotonic part.

const hasMonotonic = uint64(1) << 63

func (w *Worker) sum(a, b Value) Value {
	x, okx := a.(I)
	y, oky := b.(I)
	if okx && oky {
		return x + y
	}
	return lower(w.ctx.Bin(OAdd, w.lift(a, 64), w.lift(b, 64)))
}

func installClock(m map[string]nativeFn) {
	for k, f := range map[string]nativeFn{
		"time.Now": func(fr *frame, args []Value) Value {
			if !fr.w.fake {
				panic(pathEnd{"unsupported", "reading the clock"})
			}
			return Struct{I(hasMonotonic), fr.w.now, (*Value)(nil)}
		},
		"time.Sleep": func(fr *frame, args []Value) Value {
			w := fr.w
			if !w.fake {
				panic(pathEnd{"unsupported", "sleeping"})
			}
			if w.branch(w.ctx.Cmp(OSlt, w.ctx.Const(0, 64), w.lift(args[0], 64))) {
				w.now = w.sum(w.now, args[0])
			}
			return nil
		},
		"(time.Time).Add": func(fr *frame, args []Value) Value {
			s := args[0].(Struct)
			wall, ok := s[0].(I)
			if !fr.w.fake || !ok || uint64(wall)&hasMonotonic == 0 {
				return original(fr, args)
			}
			return Struct{s[0], fr.w.sum(s[1], args[1]), s[2]}
		},
		"(*sync/atomic.Value).Load": func(fr *frame, args []Value) Value {
			return fr.w.load(&(*args[0].(*Value)).(Struct)[0])
		},
		"(*sync/atomic.Value).Store": func(fr *frame, args []Value) Value {
			fr.w.storeTo(&(*args[0].(*Value)).(Struct)[0], args[1])
			return nil
		},
		"(*sync/atomic.Value).Swap": func(fr *frame, args []Value) Value {
			p := &(*args[0].(*Value)).(Struct)[0]
			old := fr.w.load(p)
			fr.w.storeTo(p, args[1])
			return old
		},
	} {
		m[k] = f
	}
}
