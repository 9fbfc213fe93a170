// Command progen writes random Go programs: each is a pair of packages a and b
// whose functions use package variables, locals that shadow them, methods,
// closures, defers, panics, goroutines and channels in every syntactic
// position. What a program computes depends on its inputs only, not on the
// schedule: goroutines work on their own data, add to totals under a lock, or
// send values whose sum is taken.
//
// usage: progen OUT IMPORTPREFIX SEED
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int         { return int(r.next() % uint64(n)) }
func (r *rng) p(pc int) bool       { return r.n(100) < pc }
func pick[T any](r *rng, l ...T) T { return l[r.n(len(l))] }

func main() {
	out, prefix := os.Args[1], os.Args[2]
	seed, err := strconv.ParseUint(os.Args[3], 10, 64)
	if err != nil {
		panic(err)
	}
	p := newProg(seed, prefix)
	for _, f := range p.more {
		d := filepath.Join(out, f.name)
		must(os.MkdirAll(filepath.Dir(d), 0755))
		must(os.WriteFile(d, []byte(f.text), 0644))
	}
	for _, k := range p.pkgs {
		for i, f := range k.files {
			d := filepath.Join(out, k.name)
			must(os.MkdirAll(d, 0755))
			must(os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.go", i)), []byte(f), 0644))
		}
		for _, f := range k.odd {
			must(os.WriteFile(filepath.Join(out, k.name, f.name), []byte(f.text), 0644))
		}
		// not to be instrumented: added afterwards
		must(os.WriteFile(filepath.Join(out, k.name, "zz_pt.txt"), []byte(k.extra()), 0644))
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "progen:", err)
		os.Exit(1)
	}
}
