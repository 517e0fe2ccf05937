package lab

// Components tells what ran as real code and what was simulated.
func Components(prop string) (real, stub []string) {
	real = []string{"go-amino: every non-test file of the root package as in /repo's working tree (instrumented copy: scheduling points inserted, nothing else changed)", "reflect, encoding/json, fmt and the rest of the standard library"}
	stub = []string{"thread scheduling (cooperative seeded scheduler)", "sync primitives used by go-amino (simulated, same semantics)", "clock (virtual)", "map iteration order inside go-amino (seeded permutation)", "readers, writers and user conversion methods (simulated callers)"}
	switch prop {
	case "C02":
		real = append(real, "Go race detector (ThreadSanitizer) over the code under test")
	case "C07", "C08", "C09", "C10", "C11":
		stub = append(stub, "byte streams between producers and consumers")
	case "C13", "C14":
		stub = append(stub, "storage and network between encoder and decoder (corrupting)")
	case "C17", "C18":
		stub = append(stub, "processes (nodes), network, durable storage")
	case "C19":
		stub = append(stub, "processes, disk with page cache and torn writes")
	}
	return
}

// Assumptions of a property's check.
func Assumptions(prop string) []string {
	a := []string{
		"preemption happens between statements of go-amino and at lock operations, not inside a statement or inside the standard library",
		"types and values are drawn from the harness's universe and from generated struct types",
	}
	switch prop {
	case "C01", "C05", "C06", "C21":
		a = append(a, "what a call returns alone is what the same sources, uninstrumented, return on a fresh codec")
	case "C02":
		a = append(a, "happens-before edges are those of the simulated locks; standard-library internal synchronisation may add edges")
	case "C19":
		a = append(a, "a torn tail is a prefix of the bytes appended since the last sync (append-only file on an ordered file system)")
	}
	return a
}
