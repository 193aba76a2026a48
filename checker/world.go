package main

import (
	"fmt"
)

// World is the program plus the abstract store left by package
// initialisation; entry points are analysed starting from it.
type World struct {
	P    *Program
	Init *State
}

// initWorld interprets the initialisers of the given packages (and, through
// them, of everything they import) over the abstract domain.
func initWorld(p *Program, rels ...string) (*World, error) {
	return initWorldIn(p, newInterp(p), rels...)
}

func initWorldIn(p *Program, in *Interp, rels ...string) (*World, error) {
	st := newState()
	st.User["init"] = cBool(true)

	for _, r := range rels {
		q := p.pkg(r)
		if q == nil {
			return nil, fmt.Errorf("package %s not found", r)
		}

		f := q.Func("init")
		if f == nil {
			return nil, fmt.Errorf("package %s has no init", r)
		}

		outs := in.Call(st, f, nil, nil, 0, false)

		var ok []Out

		for _, o := range outs {
			if o.Kind == Ret {
				ok = append(ok, o)
			}
		}

		if len(ok) == 0 {
			return nil, fmt.Errorf("no path through init of %s (%v)", r, outs)
		}

		st = ok[0].St
	}

	delete(st.User, "init")
	st.User["concrete"] = nil
	delete(st.User, "concrete")

	return &World{P: p, Init: st.freeze()}, nil
}
