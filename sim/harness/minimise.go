package harness

import (
	"runtime"
	"sync"
	"time"

	"github.com/tdewolff/font/zzverif/fontgen"
	simos "github.com/tdewolff/font/zzverif/simos"
	"github.com/tdewolff/font/zzverif/simrt"
)

// minimise shrinks a failing case while it fails in the same way, trying candidates in parallel.
func (s *supervisor) minimise(c *Case, class string) *Case {
	end := time.Now().Add(time.Duration(env("VERIF_MIN_SECONDS", 45)) * time.Second)
	n := runtime.NumCPU()
	servers := make([]*server, n)
	for i := range servers {
		servers[i] = &server{s: s}
		defer servers[i].close()
	}
	// first returns the index of the first failing candidate
	first := func(cands []*Case) *Case {
		for i := 0; i < len(cands) && time.Now().Before(end); i += n {
			group := cands[i:min(i+n, len(cands))]
			out := make([]*Case, len(group))
			var wg sync.WaitGroup
			for j := range group {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					r := servers[j].run(group[j], 30*time.Second)
					if r != nil && r.Viol != nil && r.Viol.Class == class {
						out[j] = group[j]
						if r.Case != nil && len(group[j].Sched.List) > len(r.Case.Sched.List) {
							out[j] = r.Case // only the switches that really happened
						}
						out[j].Class, out[j].Message = r.Viol.Class, r.Viol.Msg
					}
				}(j)
			}
			wg.Wait()
			for _, o := range out {
				if o != nil {
					return o
				}
			}
		}
		return nil
	}
	steps := []func(*Case) []*Case{shrinkThreads, shrinkOps, shrinkSched, shrinkFaults, shrinkFonts, shrinkMisc, shrinkArgs}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for _, step := range steps {
			for time.Now().Before(end) {
				x := first(step(c))
				if x == nil {
					break
				}
				c, changed = x, true
			}
		}
	}
	return c
}

// cuts returns index ranges to remove, big ones first.
func cuts(n int) (res [][2]int) {
	for size := n; size >= 1; size /= 2 {
		for i := 0; i+size <= n; i += size {
			res = append(res, [2]int{i, i + size})
		}
		if n%size != 0 && size > 1 {
			res = append(res, [2]int{n - size, n})
		}
	}
	return
}

func without[T any](s []T, c [2]int) []T {
	return append(append([]T(nil), s[:c[0]]...), s[c[1]:]...)
}

func shrinkOps(c *Case) (res []*Case) {
	for _, cut := range cuts(len(c.Ops)) {
		d := c.Clone()
		d.Ops = without(d.Ops, cut)
		res = append(res, d)
	}
	return
}

func shrinkThreads(c *Case) (res []*Case) {
	for i := range c.Threads {
		if len(c.Threads[i]) == 0 {
			continue
		}
		for _, cut := range cuts(len(c.Threads[i])) {
			d := c.Clone()
			d.Threads[i] = without(d.Threads[i], cut)
			if c.Sched.Fixed { // the recording does not fit the shorter thread: also search anew
				e := d.Clone()
				e.Sched.Fixed, e.Sched.List = false, nil
				res = append(res, e)
			}
			res = append(res, d)
		}
	}
	return
}

func shrinkSched(c *Case) (res []*Case) {
	if !c.Sched.Fixed {
		return
	}
	for _, cut := range cuts(len(c.Sched.List)) {
		d := c.Clone()
		d.Sched.List = without(d.Sched.List, cut)
		res = append(res, d)
		if len(res) > 400 {
			break
		}
	}
	return
}

func shrinkFaults(c *Case) (res []*Case) {
	if !c.Faults.Fixed {
		return
	}
	for _, cut := range cuts(len(c.Faults.List)) {
		d := c.Clone()
		d.Faults.List = without(d.Faults.List, cut)
		res = append(res, d)
	}
	for i, f := range c.Faults.List {
		if f.Arg > 1 {
			d := c.Clone()
			d.Faults.List = append([]simos.Fault(nil), c.Faults.List...)
			d.Faults.List[i].Arg /= 2
			res = append(res, d)
		}
	}
	return
}

func shrinkMisc(c *Case) (res []*Case) {
	add := func(f func(d *Case)) {
		d := c.Clone()
		f(d)
		res = append(res, d)
	}
	if c.MapMode != 0 {
		add(func(d *Case) { d.MapMode = 0 })
	}
	if c.Clock.Jumps != nil {
		add(func(d *Case) { d.Clock.Jumps = nil })
	}
	if c.Clock.Step != 0 {
		add(func(d *Case) { d.Clock.Step = 0 })
	}
	if c.Clock.Start != 1700000000 {
		add(func(d *Case) { d.Clock.Start = 1700000000 })
	}
	for k, v := range c.P {
		k := k
		if v != 0 {
			add(func(d *Case) { d.P[k] = 0 })
		}
		if v > 1 || v < -1 {
			add(func(d *Case) { d.P[k] = v / 2 })
			add(func(d *Case) { d.P[k] = v - 1 })
		}
	}
	return
}

func shrinkFonts(c *Case) (res []*Case) {
	if len(c.Fonts) > 1 {
		d := c.Clone()
		d.Fonts = d.Fonts[:len(d.Fonts)-1]
		res = append(res, d)
		d = c.Clone()
		d.Fonts = d.Fonts[1:]
		res = append(res, d)
	}
	for i := range c.Fonts {
		for _, s := range fontgen.Shrink(c.Fonts[i]) {
			d := c.Clone()
			d.Fonts[i] = s
			res = append(res, d)
		}
	}
	return
}

func shrinkArgs(c *Case) (res []*Case) {
	try := func(set func(d *Case, v int), v int) {
		for _, x := range []int{0, 1, v / 2, v - 1} {
			if x != v && x >= 0 && x < v {
				d := c.Clone()
				set(d, x)
				res = append(res, d)
			}
		}
	}
	for i, op := range c.Ops {
		for j, v := range op.A {
			i, j := i, j
			try(func(d *Case, v int) { d.Ops[i].A[j] = v }, v)
		}
		if len(op.A) > 2 {
			for _, cut := range cuts(len(op.A) - 1) {
				d := c.Clone()
				d.Ops[i].A = without(d.Ops[i].A, [2]int{cut[0] + 1, cut[1] + 1})
				res = append(res, d)
			}
		}
	}
	for t := range c.Threads {
		for i, op := range c.Threads[t] {
			for j, v := range op.A {
				t, i, j := t, i, j
				try(func(d *Case, v int) { d.Threads[t][i].A[j] = v }, v)
			}
		}
	}
	if len(res) > 600 {
		r := simrt.NewRand(uint64(len(res)))
		p := r.Perm(len(res))
		var some []*Case
		for _, i := range p[:600] {
			some = append(some, res[i])
		}
		return some
	}
	return
}
