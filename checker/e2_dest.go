package main

// C12: what a decode yields does not depend on what the destination held.

func checkDest(p *Program) *Report {
	rep := newReport("decoding into a destination with arbitrary contents yields, for every input that is accepted, the value decoding into a zero destination yields")
	lays := chainLayouts()
	for _, tn := range sortedKeys(lays) {
		t := p.named("pkg/chain", tn)
		if t == nil {
			rep.undecided(tn, "type not found")
			continue
		}
		rep.Analysed["types"]++
		checkWireDec(p, rep, tn, t, lays[tn], true)
	}
	var sp *specPkg
	rep.decide("specification types", func() { sp = p.spec("composite", specTypes) })
	if sp != nil {
		decode := p.method(p.named("pkg/abi", "Decoder"), "Decode")
		for _, tn := range compositeTypes {
			if tn == "Blank" {
				continue // blank fields are not part of the value
			}
			key := "Decode(*" + tn + ")"
			rep.decide(key, func() { reflectDec(p, rep, key, sp.typ(tn), decode, true) })
			rep.Analysed["types"]++
		}
	}
	rep.Assumptions = append(rep.Assumptions, "decoded lists handled by reflection have at most 4095 elements")
	rep.floor("types", 20)
	return rep
}

func init() { checks["C12"] = checkDest }
