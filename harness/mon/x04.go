package mon

import (
	"fmt"

	"verif/harness/core"
)

func init() {
	for _, k := range xbKinds {
		core.Register("X04", "non-trivial: several objects derived from one another (copies, images, decoded images, results, merge sources) were changed in turn while all the others were watched; distinct by the history of changes",
			core.Family{Name: k.name, Quick: 1500, Thorough: 60000, Run: func(t *T) { x4Pool(t, k.make) }})
	}
	core.Assume("X04", "the zero-copy wrapped theta sketch is given bytes nobody else holds", "summaries and items that are themselves references belong to the caller")
}

// x4Pool keeps a pool of objects derived from one another, changes one at a time
// and checks that no other one changes.
func x4Pool(t *T, mk func(t *T) *box) {
	first := mk(t)
	pool := []*box{first}
	state := []string{first.look(t)}
	hist := first.name
	add := func(bs []*box) {
		for _, b := range bs {
			if len(pool) >= 14 { // make room: forget the oldest but the first
				pool, state = append(pool[:1], pool[2:]...), append(state[:1], state[2:]...)
			}
			pool, state = append(pool, b), append(state, b.look(t))
		}
	}
	for step := range 6 + t.IntN(14) {
		i := t.IntN(len(pool))
		if t.IntN(3) == 0 {
			i = max(0, len(pool)-1-t.IntN(3))
		}
		b := pool[i]
		changed := false
		var what string
		var derived []*box
		switch {
		case b.more != nil && t.IntN(2) == 0:
			what = "derive from " + b.name
			derived = b.more(t)
		case b.op != nil:
			what = "change " + b.name
			b.op(t)
			changed = true
		default:
			continue
		}
		hist += fmt.Sprintf("; %d %s", i, what)
		t.Logf("step %d: %s", step, what)
		t.Desc("%s", hist)
		for j, o := range pool {
			now := o.look(t)
			if j == i && changed {
				if now != state[j] {
					t.Ev("changes")
				}
				state[j] = now
				continue
			}
			if now != state[j] {
				if j == i {
					t.Check(false, "source-changed", "%q changed its source: %s, was %s", what, trimString(now), trimString(state[j]))
				}
				t.Check(false, "aliased", "%q changed %q: %s, was %s", what, o.name, trimString(now), trimString(state[j]))
			}
			t.Counted(1)
			t.Ev("watched objects")
		}
		add(derived)
		t.EvN("derived objects", len(derived))
	}
	t.Sig(hist)
	if len(pool) > 2 {
		t.NonTrivial()
	}
}
