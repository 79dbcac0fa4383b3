package main

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"reflect"

	amino "github.com/tendermint/go-amino"
)

// What the documentation says about names: the SHA-256 of the name, skipping
// zeros, three bytes, skipping zeros, four bytes.
func specDisfix(name string) (disamb [3]byte, prefix [4]byte) {
	h := sha256.Sum256([]byte(name))
	i := 0
	for h[i] == 0 {
		i++
	}
	copy(disamb[:], h[i:i+3])
	i += 3
	for h[i] == 0 {
		i++
	}
	copy(prefix[:], h[i:i+4])
	return
}

// regInfo is the model of one RegisterConcrete.
type regInfo struct {
	rt     reflect.Type
	name   string
	ptr    bool
	disamb [3]byte
	prefix [4]byte
}

type ifaceInfo struct {
	rt     reflect.Type
	always bool
	prio   []string
}

// universe is a set of registrations, and a codec that has them.
type universe struct {
	cdc    *amino.Codec
	regs   []*regInfo
	byType map[reflect.Type]*regInfo
	byName map[string]*regInfo
	ifaces map[reflect.Type]*ifaceInfo
	iorder []reflect.Type
}

func (u *universe) add(rt reflect.Type, name string, ptr bool) *regInfo {
	ri := &regInfo{rt: rt, name: name, ptr: ptr}
	ri.disamb, ri.prefix = specDisfix(name)
	u.regs = append(u.regs, ri)
	u.byType[rt] = ri
	u.byName[name] = ri
	return ri
}

func implements(rt, it reflect.Type) bool { return reflect.PtrTo(rt).Implements(it) }

// others that implement it and have the same prefix
func (u *universe) conflicts(it reflect.Type, ri *regInfo) (n int) {
	for _, o := range u.regs {
		if o != ri && o.prefix == ri.prefix && implements(o.rt, it) {
			n++
		}
	}
	return
}

func (u *universe) needDisamb(it reflect.Type, ri *regInfo) bool {
	return u.ifaces[it].always || u.conflicts(it, ri) > 0
}

// usable says whether all interfaces inside of a registered type are registered.
func (u *universe) usable(rt reflect.Type) bool {
	return rt != reflect.TypeOf(CIf{}) || u.ifaces[tI1] != nil && u.ifaces[tI2] != nil && u.ifaces[tAny] != nil
}

// implementers of an interface
func (u *universe) implementers(it reflect.Type, bin bool) (out []*regInfo) {
	for _, ri := range u.regs {
		if implements(ri.rt, it) && !(bin && !binOK(ri.rt)) {
			out = append(out, ri)
		}
	}
	return
}

func binOK(rt reflect.Type) bool {
	for _, c := range concretes {
		if c.rt == rt {
			return !c.jsonOnly
		}
	}
	return true
}

func newUniverseModel() *universe {
	return &universe{byType: map[reflect.Type]*regInfo{}, byName: map[string]*regInfo{}, ifaces: map[reflect.Type]*ifaceInfo{}}
}

func (u *universe) addIface(it reflect.Type, always bool, prio []string) {
	u.ifaces[it] = &ifaceInfo{it, always, prio}
	u.iorder = append(u.iorder, it)
}

// newUniverse makes random registrations.
func newUniverse(rng *rand.Rand) *universe {
	u := newUniverseModel()
	perm := rng.Perm(len(concretes))
	n := len(perm)
	if rng.Intn(3) == 0 {
		n = 8 + rng.Intn(n-8)
	}
	var names []string
	if rng.Intn(2) == 0 {
		// some names that have equal prefixes
		for _, g := range rng.Perm(len(minedGroups))[:1+rng.Intn(4)] {
			names = append(names, minedGroups[g]...)
		}
	}
	if rng.Intn(3) == 0 {
		for _, g := range rng.Perm(len(minedDisamb))[:1+rng.Intn(3)] {
			names = append(names, minedDisamb[g]...)
		}
	}
	if rng.Intn(2) == 0 {
		for i := 0; i < 3; i++ {
			names = append(names, minedZeros[rng.Intn(len(minedZeros))])
		}
	}
	k := 0
	for _, i := range perm[:n] {
		c := concretes[i]
		var name string
		for {
			if k < len(names) {
				name = names[k]
				k++
			} else {
				switch rng.Intn(8) {
				case 0:
					name = genName(rng)
				default:
					name = fmt.Sprintf("amon/%s/%d", c.rt.Name(), rng.Intn(1000))
				}
			}
			if u.byName[name] == nil && name != "" {
				break
			}
		}
		u.add(c.rt, name, rng.Intn(2) == 0)
	}
	for _, it := range ifaceTypes {
		always := it == tIA || rng.Intn(6) == 0
		u.addIface(it, always, nil)
	}
	u.fixPrio(rng)
	u.cdc = u.build(rng)
	return u
}

// fixPrio lists everything that conflicts, as registration demands.
func (u *universe) fixPrio(rng *rand.Rand) {
	for _, it := range u.iorder {
		ii := u.ifaces[it]
		ii.prio = nil
		for _, ri := range u.regs {
			if implements(ri.rt, it) && u.conflicts(it, ri) > 0 {
				ii.prio = append(ii.prio, ri.name)
			}
		}
		if rng != nil {
			rng.Shuffle(len(ii.prio), func(i, j int) { ii.prio[i], ii.prio[j] = ii.prio[j], ii.prio[i] })
		}
	}
}

type regStep struct {
	iface *ifaceInfo
	reg   *regInfo
}

func (u *universe) steps(rng *rand.Rand) (steps []regStep) {
	for _, it := range u.iorder {
		steps = append(steps, regStep{iface: u.ifaces[it]})
	}
	for _, ri := range u.regs {
		steps = append(steps, regStep{reg: ri})
	}
	if rng != nil {
		rng.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
	}
	return
}

// build makes a codec with the registrations of u, in a random order.
func (u *universe) build(rng *rand.Rand) *amino.Codec {
	cdc := amino.NewCodec()
	for _, s := range u.steps(rng) {
		s.apply(cdc)
	}
	return cdc
}

func (s regStep) apply(cdc *amino.Codec) {
	if s.iface != nil {
		p := reflect.New(s.iface.rt).Interface()
		if !s.iface.always && len(s.iface.prio) == 0 {
			cdc.RegisterInterface(p, nil)
			return
		}
		cdc.RegisterInterface(p, &amino.InterfaceOptions{Priority: s.iface.prio, AlwaysDisambiguate: s.iface.always})
		return
	}
	o := reflect.New(s.reg.rt)
	if s.reg.ptr {
		cdc.RegisterConcrete(o.Interface(), s.reg.name, nil)
	} else {
		cdc.RegisterConcrete(o.Elem().Interface(), s.reg.name, nil)
	}
}

func (s regStep) String() string {
	if s.iface != nil {
		return fmt.Sprintf("RegisterInterface(%v, always=%v prio=%q)", s.iface.rt, s.iface.always, s.iface.prio)
	}
	return fmt.Sprintf("RegisterConcrete(%v, ptr=%v, %q)", s.reg.rt, s.reg.ptr, s.reg.name)
}
