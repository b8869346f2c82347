package main

// Goroutines, channels and the scheduler. Interpreted goroutines run on host
// goroutines but only the holder of the baton (m.cur) executes.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Chan struct {
	buf    []V
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	// happens-before: clocks of buffered values and of receives
	vcs    [][]int32
	rvcs   [][]int32
	closeV []int32
	nsent  int
	nrecv  int
}

type waiter struct {
	g    *G
	v    V
	ok   bool
	done bool
	sel  *selState
	idx  int
	vc   []int32
}

type selState struct {
	fired bool
	idx   int
	v     V
	ok    bool
	vc    []int32
}

func (m *Machine) spawn(fr *frame, pc *preparedCall) {
	if m.initing > 0 {
		return // goroutines started by package initialisers are not modelled
	}
	if len(m.gs) > 1000 {
		panic(limitEnd("too many goroutines"))
	}
	g := &G{m: m, id: len(m.gs), wake: make(chan struct{})}
	m.gs = append(m.gs, g)
	if m.raceOn {
		g.vc = vcCopy(fr.g.vc)
		vcInc(&g.vc, g.id)
		vcInc(&fr.g.vc, fr.g.id)
	}
	p := m.path
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if p.dead {
				p.exited <- struct{}{}
				return
			}
			if r != nil {
				p.fail(r, g)
				return
			}
			// hand the baton on
			func() {
				defer func() {
					if r := recover(); r != nil {
						p.fail(r, g)
					}
				}()
				m.reschedule(g)
			}()
		}()
		if p.dead {
			return
		}
		root := &frame{m: m, g: g}
		root.callPrepared(pc)
	}()
	m.yield(fr.g, "go")
}

// runnable lists goroutines that can make progress.
func (m *Machine) runnable() []*G {
	var rs []*G
	for _, g := range m.gs {
		if g.done || g.abandoned {
			continue
		}
		if g.blocked == nil || g.blocked() {
			rs = append(rs, g)
		}
	}
	return rs
}

// yield is a scheduling point at which another goroutine may run first.
func (m *Machine) yield(g *G, why string) {
	if len(m.gs) <= 1 || !m.path.schedChoice && m.path.policy != 2 {
		return
	}
	rs := m.runnable()
	if len(rs) <= 1 {
		return
	}
	if !m.path.schedChoice {
		m.switchTo(g, m.pick(rs))
		return
	}
	// the running goroutine first: staying is choice 0
	ord := []*G{g}
	for _, x := range rs {
		if x != g {
			ord = append(ord, x)
		}
	}
	if m.path.preempts >= m.path.maxPreempt && m.path.maxPreempt >= 0 {
		return
	}
	j := m.path.chooseSilent(len(ord))
	if j == 0 {
		return
	}
	m.path.preempts++
	m.switchTo(g, ord[j])
}

// pick applies a fixed scheduling policy: lowest first, highest first, or in
// turns (with a switch at every scheduling point).
func (m *Machine) pick(rs []*G) *G {
	switch m.path.policy {
	case 1:
		return rs[len(rs)-1]
	case 2:
		for _, g := range rs {
			if g.id > m.cur.id {
				return g
			}
		}
	}
	return rs[0]
}

func (m *Machine) switchTo(from, to *G) {
	if from == to {
		return
	}
	m.cur = to
	to.wake <- struct{}{}
	<-from.wake
	if m.path.dead {
		panic(&pathEnd{"killed", ""})
	}
}

// block suspends g until ready() holds.
func (m *Machine) block(g *G, reason string, ready func() bool) {
	if ready() {
		return
	}
	g.blocked, g.reason = ready, reason
	for {
		rs := m.runnable()
		if len(rs) == 0 {
			m.path.deadlock(m)
		}
		var to *G
		if len(rs) == 1 || !m.path.schedChoice {
			to = m.pick(rs)
		} else {
			to = rs[m.path.chooseSilent(len(rs))]
		}
		if to == g {
			g.blocked = nil
			return
		}
		m.switchTo(g, to)
		if ready() {
			g.blocked = nil
			return
		}
	}
}

// reschedule runs when g has finished.
func (m *Machine) reschedule(g *G) {
	rs := m.runnable()
	if len(rs) == 0 {
		m.path.deadlock(m)
	}
	var to *G
	if len(rs) == 1 || !m.path.schedChoice {
		to = m.pick(rs)
	} else {
		to = rs[m.path.chooseSilent(len(rs))]
	}
	m.cur = to
	to.wake <- struct{}{}
}

// --- vector clocks ---

func vcCopy(a []int32) []int32 { return append([]int32(nil), a...) }

func vcInc(a *[]int32, i int) {
	for len(*a) <= i {
		*a = append(*a, 0)
	}
	(*a)[i]++
}

func vcJoin(a *[]int32, b []int32) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func vcGet(a []int32, i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type raceCell struct {
	wg   int
	wc   int32
	wpos string
	rd   []int32
}

func (m *Machine) raceAccess(fr *frame, o *Obj, i int, write bool) {
	if m.path.dead || len(m.gs) <= 1 {
		// still record: accesses before the first spawn happen before everything
		return
	}
	if o.race == nil || m.initing > 0 {
		return
	}
	c := o.race[i]
	if c == nil {
		c = &raceCell{wg: -1}
		if o.shared && len(o.race) == 0 {
			m.racy = append(m.racy, o)
		}
		o.race[i] = c
	}
	m.raceCheck(fr, c, write)
}

func (m *Machine) raceCheck(fr *frame, c *raceCell, write bool) {
	g := m.cur
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if c.wg >= 0 && c.wg != g.id && vcGet(g.vc, c.wg) < c.wc {
		m.path.raceFound(g, c, write)
	}
	if write {
		for r, t := range c.rd {
			if r != g.id && t > 0 && vcGet(g.vc, r) < t {
				m.path.raceFound(g, c, write)
			}
		}
		c.wg, c.wc = g.id, g.vc[g.id]
		c.wpos = g.trace()
		c.rd = nil
	} else {
		for len(c.rd) <= g.id {
			c.rd = append(c.rd, 0)
		}
		c.rd[g.id] = g.vc[g.id]
	}
}

func (m *Machine) raceMap(fr *frame, mv *MapObj, write bool) {
	if !m.raceOn || len(m.gs) <= 1 || m.initing > 0 {
		return
	}
	if mv.race == nil {
		mv.race = &raceCell{wg: -1}
		if mv.shared {
			m.racyM = append(m.racyM, mv)
		}
	}
	m.raceCheck(fr, mv.race, write)
}

// release/acquire edges

func (m *Machine) hbSend(g *G) []int32 {
	if !m.raceOn {
		return nil
	}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	c := vcCopy(g.vc)
	vcInc(&g.vc, g.id)
	return c
}

func (m *Machine) hbRecv(g *G, c []int32) {
	if m.raceOn {
		vcJoin(&g.vc, c)
	}
}

// --- channels ---

func (m *Machine) chanOf(fr *frame, v V) *Chan {
	ch, _ := v.o.(*Chan)
	return ch
}

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done || w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if !w.done && (w.sel == nil || !w.sel.fired) {
			return true
		}
	}
	return false
}

func (w *waiter) fire(v V, ok bool, vc []int32) {
	w.done = true
	w.v, w.ok, w.vc = v, ok, vc
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx, w.sel.v, w.sel.ok, w.sel.vc = w.idx, v, ok, vc
	}
}

// trySend attempts a send without blocking.
func (m *Machine) trySend(fr *frame, ch *Chan, v V) bool {
	if ch.closed {
		fr.g.goPanicErr(fr, "send on closed channel")
	}
	if w := dequeue(&ch.recvq); w != nil {
		vc := m.hbSend(fr.g)
		if m.raceOn {
			// unbuffered: receive completes before send completes
			if ch.cap == 0 {
				m.hbRecv(fr.g, w.g.vc)
			} else {
				m.chanCapEdge(fr.g, ch)
				ch.nrecv++
				ch.rvcs = append(ch.rvcs, m.hbSend(w.g))
			}
		}
		w.fire(v, true, vc)
		return true
	}
	if len(ch.buf) < ch.cap {
		if m.raceOn {
			m.chanCapEdge(fr.g, ch)
		}
		ch.buf = append(ch.buf, v)
		ch.vcs = append(ch.vcs, m.hbSend(fr.g))
		return true
	}
	return false
}

// chanCapEdge: the k-th receive happens before the (k+C)-th send completes.
func (m *Machine) chanCapEdge(g *G, ch *Chan) {
	ch.nsent++
	k := ch.nsent - ch.cap
	if k >= 1 && k <= len(ch.rvcs) {
		m.hbRecv(g, ch.rvcs[k-1])
	}
}

func (m *Machine) tryRecv(fr *frame, ch *Chan, et *RType) (V, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		vc := ch.vcs[0]
		ch.vcs = ch.vcs[1:]
		m.hbRecv(fr.g, vc)
		if m.raceOn {
			ch.nrecv++
			ch.rvcs = append(ch.rvcs, m.hbSend(fr.g))
		}
		if w := dequeue(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.v)
			if m.raceOn {
				m.chanCapEdge(w.g, ch)
			}
			ch.vcs = append(ch.vcs, m.hbSend(w.g))
			w.fire(w.v, true, nil)
		}
		return v, true, true
	}
	if w := dequeue(&ch.sendq); w != nil {
		v := w.v
		if m.raceOn {
			m.hbRecv(fr.g, m.hbSend(w.g))
			m.hbRecv(w.g, m.hbSend(fr.g))
		}
		w.fire(v, true, nil)
		return v, true, true
	}
	if ch.closed {
		m.hbRecv(fr.g, ch.closeV)
		return zeroOf(et), false, true
	}
	return V{}, false, false
}

func (m *Machine) chanSend(fr *frame, c V, v V) {
	m.yield(fr.g, "send")
	ch := m.chanOf(fr, c)
	v = copyAgg(v)
	if ch == nil {
		m.block(fr.g, "send on nil channel", func() bool { return false })
	}
	if m.trySend(fr, ch, v) {
		return
	}
	w := &waiter{g: fr.g, v: v}
	ch.sendq = append(ch.sendq, w)
	m.block(fr.g, "channel send", func() bool { return w.done || ch.closed })
	if !w.done && ch.closed {
		fr.g.goPanicErr(fr, "send on closed channel")
	}
}

func (m *Machine) chanRecv(fr *frame, c V, et *RType) (V, bool) {
	m.yield(fr.g, "recv")
	ch := m.chanOf(fr, c)
	if ch == nil {
		m.block(fr.g, "receive on nil channel", func() bool { return false })
	}
	if v, ok, done := m.tryRecv(fr, ch, et); done {
		return v, ok
	}
	w := &waiter{g: fr.g}
	ch.recvq = append(ch.recvq, w)
	m.block(fr.g, "channel receive", func() bool { return w.done || ch.closed })
	if !w.done {
		w.done = true
		m.hbRecv(fr.g, ch.closeV)
		return zeroOf(et), false
	}
	m.hbRecv(fr.g, w.vc)
	return w.v, w.ok
}

func (m *Machine) chanClose(fr *frame, c V) {
	ch := m.chanOf(fr, c)
	if ch == nil {
		fr.g.goPanicErr(fr, "close of nil channel")
	}
	if ch.closed {
		fr.g.goPanicErr(fr, "close of closed channel")
	}
	ch.closed = true
	ch.closeV = m.hbSend(fr.g)
}

func (k *compiler) selectInstr(in *ssa.Select, d operand) step {
	type cs struct {
		ch, v operand
		send  bool
		et    *RType
	}
	var css []cs
	nrecv := 0
	for _, s := range in.States {
		c := cs{ch: k.op(s.Chan), send: s.Dir == types.SendOnly}
		c.et = rtypeOf(s.Chan.Type()).elem()
		if c.send {
			c.v = k.op(s.Send)
		} else {
			nrecv++
		}
		css = append(css, c)
	}
	blocking := in.Blocking
	return func(fr *frame) {
		m := fr.m
		m.yield(fr.g, "select")
		res := func(idx int, v V, ok bool) {
			t := make(tuple, 2, 2+nrecv)
			t[0], t[1] = vInt(idx), vBool(ok)
			for i, c := range css {
				if c.send {
					continue
				}
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, zeroOf(c.et))
				}
			}
			fr.r[d] = V{o: t}
		}
		var ready []int
		for i, c := range css {
			ch := m.chanOf(fr, fr.get(c.ch))
			if ch == nil {
				continue
			}
			if c.send {
				if ch.closed || live(ch.recvq) || len(ch.buf) < ch.cap {
					ready = append(ready, i)
				}
			} else if ch.closed || len(ch.buf) > 0 || live(ch.sendq) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[0]
			if len(ready) > 1 && m.path.schedChoice {
				i = ready[m.path.chooseSilent(len(ready))]
			}
			c := css[i]
			ch := m.chanOf(fr, fr.get(c.ch))
			if c.send {
				m.trySend(fr, ch, copyAgg(fr.get(c.v)))
				res(i, V{}, false)
			} else {
				v, ok, _ := m.tryRecv(fr, ch, c.et)
				res(i, v, ok)
			}
			return
		}
		if !blocking {
			res(-1, V{}, false)
			return
		}
		st := &selState{}
		var chans []*Chan
		for i, c := range css {
			ch := m.chanOf(fr, fr.get(c.ch))
			if ch == nil {
				continue
			}
			chans = append(chans, ch)
			w := &waiter{g: fr.g, sel: st, idx: i}
			if c.send {
				w.v = copyAgg(fr.get(c.v))
				ch.sendq = append(ch.sendq, w)
			} else {
				ch.recvq = append(ch.recvq, w)
			}
		}
		m.block(fr.g, "select", func() bool {
			if st.fired {
				return true
			}
			for _, ch := range chans {
				if ch.closed {
					return true
				}
			}
			return false
		})
		if !st.fired {
			st.fired = true
			for i, c := range css {
				ch := m.chanOf(fr, fr.get(c.ch))
				if ch != nil && ch.closed {
					if c.send {
						fr.g.goPanicErr(fr, "send on closed channel")
					}
					m.hbRecv(fr.g, ch.closeV)
					res(i, zeroOf(c.et), false)
					return
				}
			}
		}
		m.hbRecv(fr.g, st.vc)
		res(st.idx, st.v, st.ok)
	}
}

var _ = token.NoPos
