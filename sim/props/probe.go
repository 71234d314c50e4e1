package props

import (
	"encoding/json"
	"strings"

	"github.com/phoreproject/bls/zzverif/simrt"

	"verifsim/core"
	"verifsim/sim"
)

// ProbeMain makes every call of the API twice and lists the operations that
// execute a statement touching state shared between calls, that change the
// memory of package variables, or that change the memory of an operand which
// is not their receiver. The simulations give them more attention.
func ProbeMain(r *sim.Run) {
	r.Tolerant = true
	m := newMachine(r, r.Lib, true)
	m.Reuse = 50
	var vars []interface{}
	for _, v := range simrt.Vars {
		if !strings.HasPrefix(v.Name, "port/") {
			vars = append(vars, v.Ptr)
		}
	}
	names := []string{}
	for _, op := range r.Lib.Ops() {
		if !usable(op) {
			continue
		}
		found := false
		for k := 0; k < 2 && !found; k++ {
			args := m.args(r.S("probe/%s/%d", op.Name, k), op)
			roots := append([]interface{}{}, vars...)
			vs := make([]interface{}, len(args))
			watched := func(k core.Kind) bool { return k != core.Rd && k != core.Hash && core.IsObject(k) }
			for i, a := range args {
				vs[i] = a.v
				if a.lst {
					r.Lib.Prime(op.Args[i], a.lv)
					for _, x := range a.l {
						if watched(x.k) {
							roots = append(roots, x.v)
						}
					}
				} else if watched(a.k) && !(op.Mut && (i == 0 || a.v == args[0].v)) {
					roots = append(roots, a.v)
				}
			}
			mem := newMemory(roots)
			before := simrt.Shared()
			r.Call(op, vs, 100000000)
			found = simrt.Shared() != before || mem.changed()
		}
		if found {
			names = append(names, op.Name)
		}
	}
	r.Body, _ = json.Marshal(names)
}
