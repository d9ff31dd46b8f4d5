exec(open("/verif/tools/plants/b.py").read())
PLANTS = []

P("n03-failed-range", "N03", [(NS, "	if !normalizedRangeOk {\n		return\n	}\n\n	// Retrieve the original", "	if !normalizedRangeOk && rng.Start() > rng.End() {\n		return\n	}\n\n	// Retrieve the original")],
  D("""	n := ns.FromString("ab")
	n.Filter(func(r rune) bool { return r == 'b' })
	n.Append("")
	n.TransformRange(ns.NewOriginalRange(0, 1), []ns.RuneChange{{Rune: 'x', Change: 1}}, 0)
	eq("text", n.Get(), "b")"""),
  "a script on an original range all of whose characters were removed", "the script is applied at the beginning")
