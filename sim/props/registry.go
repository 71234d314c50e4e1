package props

import "verifsim/sim"

var runs = map[string]func(*sim.Run){
	"C01": C01,
	"C02": C02,
	"C03": C03,
	"C04": C04,
	"C05": C05,
	"C06": C06,
	"C07": C07,
	"C08": C08,
}

var modes = map[string]func(*sim.Run){
	"eval":  EvalMain,
	"solo":  SoloMain,
	"rand":  RandMain,
	"probe": ProbeMain,

	"segment": SegmentMain,
}

// Lookup finds the body for a request.
func Lookup(mode, prop string) func(*sim.Run) {
	if mode == "run" {
		return runs[prop]
	}
	return modes[mode]
}
