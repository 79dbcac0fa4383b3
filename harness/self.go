package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
)

// selfCheck checks the reference model against itself: what it decodes from
// what it encodes is what it says a round trip yields.
func selfCheck() {
	bad := 0
	for i := 0; i < 20000 && bad < 5; i++ {
		rng := rand.New(rand.NewSource(int64(i)))
		u := newUniverseModel()
		uu := newUniverse(rng)
		*u = *uu
		g := newGen(rng, u)
		t := g.topType(3)
		v := g.value(t, fopt{})
		s := &spec{u: u}
		b, err := s.top(v)
		if err != nil {
			continue
		}
		n, err := s.normTop(v)
		if err != nil {
			fmt.Println("norm", err, t)
			bad++
			continue
		}
		if len(b) == 0 && deref(t).Kind() == reflect.Interface {
			continue
		}
		d, err := s.decTop(b, t)
		if err != nil {
			fmt.Printf("#%d dec %v type %v\n value %s\n bytes %x\n", i, err, t, show(v), b)
			bad++
			continue
		}
		if df := diff(n, d); df != "" {
			fmt.Printf("#%d %s type %v\n value %s\n norm  %s\n dec   %s\n bytes %x\n", i, df, t, show(v), show(n), show(d), b)
			bad++
		}
	}
	fmt.Println("bad", bad)
	if bad > 0 {
		os.Exit(3)
	}
}
