"""Static analyser for dmpbbo: abstract interpretation of the Python sources over a gated
value graph, and dataflow evaluators (aliasing/effects, units, lengths, normal forms) on it."""
