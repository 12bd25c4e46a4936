package main

import (
	"reflect"

	"github.com/codeallergy/value"
)

// Families of types that cannot be made by reflection, because they are
// recursive or have unexported fields.  Every instantiation is used for the
// first time once.

type Rec[M any] struct {
	V value.Value `tag:"1"`
	N *Rec[M]     `tag:"2"`
	L []*Rec[M]   `tag:"3"`
	R []*Rec[M]   `tag:"4" repeated:"true"`
}

type MutA[M any] struct {
	V value.Value `tag:"1"`
	B *MutB[M]    `tag:"2"`
}

type MutB[M any] struct {
	S  []value.Value `tag:"2"`
	A  *MutA[M]      `tag:"1"`
	AS []*MutA[M]    `tag:"3" repeated:"true"`
}

type ChainX[M any] struct {
	Y *ChainY[M] `tag:"1"`
}

type ChainY[M any] struct {
	Z  *ChainZ[M] `tag:"7"`
	X  *ChainX[M] `tag:"-7"`
	Y2 *ChainY[M] `tag:"8"`
}

type ChainZ[M any] struct {
	X []*ChainX[M]    `tag:"300"`
	V []value.Number  `tag:"2" repeated:"1"`
	B value.Bool      `tag:"1"`
	Y *ChainY[M]      `tag:"0"`
	M value.Extension `tag:"5"`
}

// a good type that a bad one refers to
type GoodOne[M any] struct {
	V value.Value `tag:"1"`
	G *GoodOne[M] `tag:"2"`
}

type BadOne[M any] struct {
	G *GoodOne[M] `tag:"1"`
	B *BadOne[M]  `tag:"2"`
	I int         `tag:"3"`
}

// both bad, one because of the other
type LoopA[M any] struct {
	V value.Value `tag:"1"`
	B *LoopB[M]   `tag:"2"`
}

type LoopB[M any] struct {
	A *LoopA[M]   `tag:"1"`
	V value.Value `tag:"1"`
}

type Hidden[M any] struct {
	V value.Value `tag:"1"`
	h value.Value `tag:"2"`
}

type Hiding[M any] struct {
	V value.Value  `tag:"1"`
	H []*Hidden[M] `tag:"2"`
}

type Plain[M any] struct {
	V value.Value `tag:"1"`
}

type Embeds[M any] struct {
	*Plain[M] `tag:"2"`
	V         value.Value `tag:"1"`
	P         *Plain[M]   `tag:"3"`
}

type tucked[M any] struct {
	V value.Value `tag:"1"`
}

type Tucks[M any] struct {
	*tucked[M] `tag:"1"`
	V          value.Value `tag:"2"`
}

type TucksIn[M any] struct {
	V         value.Value `tag:"2"`
	tucked[M] `tag:"1"`
}

type PlainIn[M any] struct {
	Plain[M] `tag:"1"`
	V        value.Value `tag:"2"`
}

type Blank[M any] struct {
	V value.Value `tag:"1"`
	_ value.Value `tag:"2"`
}

type Tucker[M any] struct {
	T *TuckList[M] `tag:"5"`
	P *tucked[M]   `tag:"6"`
}

type TuckList[M any] struct {
	L []*Tucks[M] `tag:"4"`
}

// three types of one name
func twinA[M any]() interface{} {
	type Twin struct {
		V value.Value   `tag:"1"`
		L []value.Value `tag:"2" repeated:"true"`
	}
	return Twin{}
}

func twinB[M any]() interface{} {
	type Twin struct {
		L []value.Value `tag:"1"`
		V value.Value   `tag:"4"`
		T *Twin         `tag:"2"`
	}
	return Twin{}
}

func twinC[M any]() interface{} {
	type Twin struct {
		P *Plain[M]     `tag:"1"`
		V value.Value   `tag:"7"`
		L []value.Value `tag:"2"`
	}
	return Twin{}
}

func types(xs ...interface{}) []reflect.Type {
	out := make([]reflect.Type, len(xs))
	for i, x := range xs {
		out[i] = reflect.TypeOf(x)
	}
	return out
}

func families[M any]() map[string][]reflect.Type {
	return map[string][]reflect.Type{
		"rec":   types(Rec[M]{}),
		"mut":   types(MutA[M]{}, MutB[M]{}),
		"chain": types(ChainX[M]{}, ChainY[M]{}, ChainZ[M]{}),
		"bad":   types(GoodOne[M]{}, BadOne[M]{}),
		"loop":  types(LoopA[M]{}, LoopB[M]{}),
		"hide":  types(Hidden[M]{}, Hiding[M]{}),
		"twin":  types(twinA[M](), twinB[M](), twinC[M](), Plain[M]{}),
		"tuck": types(tucked[M]{}, Tucks[M]{}, TucksIn[M]{}, PlainIn[M]{}, Blank[M]{}, Tucker[M]{}, TuckList[M]{}),
		"embed": types(Embeds[M]{}, Plain[M]{}),
	}
}

type (
	m0 struct{}
	m1 struct{}
	m2 struct{}
	m3 struct{}
	m4 struct{}
	m5 struct{}
	m6 struct{}
	m7 struct{}
	m8 struct{}
	m9 struct{}
)

func more[M any]() []func() map[string][]reflect.Type {
	return []func() map[string][]reflect.Type{
		families[M], families[*M], families[[]M], families[[1]M], families[map[string]M], families[chan M],
		families[func(M)], families[**M], families[[]*M], families[[2]M],
	}
}

var instantiations = func() (out []func() map[string][]reflect.Type) {
	out = append(out, more[m0]()...)
	out = append(out, more[m1]()...)
	out = append(out, more[m2]()...)
	out = append(out, more[m3]()...)
	out = append(out, more[m4]()...)
	out = append(out, more[m5]()...)
	out = append(out, more[m6]()...)
	out = append(out, more[m7]()...)
	out = append(out, more[m8]()...)
	return append(out, more[m9]()...)
}()

func staticTypes(name string, marker int) []reflect.Type {
	ts := instantiations[marker%len(instantiations)]()[name]
	if ts == nil {
		panic(caseError("no family " + name))
	}
	return ts
}
