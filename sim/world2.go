package main

import (
	"reflect"
	"time"

	"github.com/mjarkk/yarql"
)

// Two further applications. The wide one has many fields, arguments, enum
// values and implementations, deep lists, and inputs that contain each other;
// the tiny one has next to nothing. Every scenario chooses one application;
// the types of all of them live in one process, as they do in servers that
// offer more than one schema.

type Big string

var bigMap = map[string]Big{}

func init() {
	for i := 0; i < 60; i++ {
		bigMap["V"+hex16(mix(7, uint64(i)))[10:]+"_"+string(rune('A'+i%26))] = Big("big" + hex16(uint64(i)))
	}
	bigMap["on"] = "on"
	bigMap["fragment"] = "fr"
}

type Wide struct {
	H   uint64 `gq:"-"`
	F00 int
	F01 string `gq:",ID"`
	F02 uint8
	F03 *string `gq:"renamed_03"`
	F04 bool
	F05 float64
	F06 *int64
	F07 []int8
	F08 Color
	F09 *Big
	F10 time.Time
	F11 []string
	F12 *bool
	F13 int16
	F14 []*uint16 `gq:"renamed_14"`
	F15 int
	F16 string `gq:",ID"`
	F17 uint8
	F18 *string
	F19 bool
	F20 float64
	F21 *int64
	F22 []int8
	F23 Color
	F24 *Big
	F25 time.Time `gq:"renamed_25"`
	F26 []string
	F27 *bool
	F28 int16
	F29 []*uint16
	F30 int
	F31 string `gq:",ID"`
	F32 uint8
	F33 *string
	F34 bool
	F35 float64
	F36 *int64 `gq:"renamed_36"`
	F37 []int8
	F38 Color
	F39 *Big
	F40 time.Time
	F41 []string
	F42 *bool
	F43 int16
	F44 []*uint16
	F45 int
	F46 string `gq:",ID"`
	F47 uint8  `gq:"renamed_47"`
	F48 *string
	F49 bool
	F50 float64
	F51 *int64
	F52 []int8
	F53 Color
	F54 *Big
	F55 time.Time
	F56 []string
	F57 *bool
	F58 int16 `gq:"renamed_58"`
	F59 []*uint16
	F60 int
	F61 string `gq:",ID"`
	F62 uint8
	F63 *string
	F64 bool
	F65 float64
	F66 *int64
	F67 []int8
	F68 Color
	F69 *Big `gq:"renamed_69"`
	F70 time.Time
	F71 []string
	F72 *bool
	F73 int16
	F74 []*uint16
	E1  EnInt
	E2  *EnI8
	E3  EnI32
	E4  []EnI64
	E5  EnUint
	E6  EnU16
	E7  *EnU64
	S1  SMALL
	S2  *SmalL
}

// Names that differ in case only.
type SMALL struct{ V, W int }

type SmalL struct{ V *string }

func (o Wide) ResolveM00() int {
	return out1[int](nil, "Wide.M00", o.H)
}
func (o Wide) ResolveM01(ctx *yarql.Ctx) (string, error) {
	return out2[string](ctx, "Wide.M01", o.H)
}
func (o Wide) ResolveM02(a struct{ X int }) *Wide {
	return out1[*Wide](nil, "Wide.M02", o.H, a)
}
func (o Wide) ResolveM03(ctx *yarql.Ctx, a struct{ B *Big }) ([]Small, error) {
	return out2[[]Small](ctx, "Wide.M03", o.H, a)
}
func (o Wide) ResolveM04() (error, *Color) {
	v, err := out2[*Color](nil, "Wide.M04", o.H)
	return err, v
}
func (o Wide) ResolveM05(ctx *yarql.Ctx) (yarql.AttrIsID, string) {
	return 0, out1[string](ctx, "Wide.M05", o.H)
}
func (o Wide) ResolveM06(a struct{ X int }) int {
	return out1[int](nil, "Wide.M06", o.H, a)
}
func (o Wide) ResolveM07(ctx *yarql.Ctx, a struct{ B *Big }) (string, error) {
	return out2[string](ctx, "Wide.M07", o.H, a)
}
func (o Wide) ResolveM08() *Wide {
	return out1[*Wide](nil, "Wide.M08", o.H)
}
func (o Wide) ResolveM09(ctx *yarql.Ctx) ([]Small, error) {
	return out2[[]Small](ctx, "Wide.M09", o.H)
}
func (o Wide) ResolveM10(a struct{ X int }) (error, *Color) {
	v, err := out2[*Color](nil, "Wide.M10", o.H, a)
	return err, v
}
func (o Wide) ResolveM11(ctx *yarql.Ctx, a struct{ B *Big }) (yarql.AttrIsID, string) {
	return 0, out1[string](ctx, "Wide.M11", o.H, a)
}

type Small struct {
	H uint64 `gq:"-"`
	V int
}

func (o Small) ResolveUp(ctx *yarql.Ctx) (*Small, error) { return out2[*Small](ctx, "Small.up", o.H) }

func (o Small) ResolveBlank() Blank    { return out1[Blank](nil, "Small.blank", o.H) }
func (o Small) ResolveBlanks() []Blank { return out1[[]Blank](nil, "Small.blanks", o.H) }

// Blank has no memory of its own.
type Blank struct{}

func (Blank) ResolveV(a struct{ N *int }) int { return out1[int](nil, "Blank.v", 0, a) }
func (Blank) ResolveMe(ctx *yarql.Ctx) (*Blank, error) {
	return out2[*Blank](ctx, "Blank.me", 0)
}
func (Blank) ResolveUp() Small { return out1[Small](nil, "Blank.up", 0) }

type Lists struct {
	H    uint64 `gq:"-"`
	L3   [][][]int
	LP   []*[]string
	PL   *[]string
	PPL  **[]int
	AA   [2][3]string
	LT   [][]Thing
	PT   []*time.Time
	LE   [][]Color
	FL   []float32
	BY   []byte
	PE   *Twin
	LS   [][]Small
	LPS  []*[]*Small
	A1   [1]*Small
	A0   [0]int
	Anon []struct {
		H uint64 `gq:"-"`
		X int
		Y []string
	}
}

func (o Lists) ResolvePpi() **int { return out1[**int](nil, "Lists.ppi", o.H) }
func (o Lists) ResolvePps(ctx *yarql.Ctx) (**Small, error) {
	return out2[**Small](ctx, "Lists.pps", o.H)
}
func (o Lists) ResolvePls() (*[]*string, error)    { return out2[*[]*string](nil, "Lists.pls", o.H) }
func (o Lists) ResolveLps() []*[]Small             { return out1[[]*[]Small](nil, "Lists.lps", o.H) }
func (o Lists) ResolveArr() [3]*Color              { return out1[[3]*Color](nil, "Lists.arr", o.H) }
func (o Lists) ResolveMom() (*time.Time, error)    { return out2[*time.Time](nil, "Lists.mom", o.H) }
func (o Lists) ResolveBytes(ctx *yarql.Ctx) []byte { return out1[[]byte](ctx, "Lists.bytes", o.H) }
func (o Lists) ResolveNo() (yarql.AttrIsID, *uint16, error) {
	v, err := out2[*uint16](nil, "Lists.no", o.H)
	return 0, v, err
}
func (o Lists) ResolveAn(a struct{ P **[]**int8 }) struct {
	H   uint64 `gq:"-"`
	X   int
	Sub *Small
} {
	return out1[struct {
		H   uint64 `gq:"-"`
		X   int
		Sub *Small
	}](nil, "Lists.an", o.H, a)
}

// Emb has a resolver of the struct it embeds, and hides another one.
type Core struct {
	H uint64 `gq:"-"`
}

func (o Core) ResolveBased(ctx *yarql.Ctx) (string, error) {
	return out2[string](ctx, "Core.based", o.H)
}
func (o Core) ResolveOwn() int { panic("hidden resolver") }

type Emb struct {
	Core
	Extra int
	Kid   *Emb
}

func (o Emb) ResolveOwn(ctx *yarql.Ctx) (*Emb, error) { return out2[*Emb](ctx, "Emb.own", o.H) }

// Thing has many implementations, Solo one, and both share one.
type Thing interface {
	ResolveTag() string
	ResolvePeer(ctx *yarql.Ctx) (Thing, error)
	ResolveMany(a struct{ N uint8 }) ([]Thing, error)
	ResolveWhen() time.Time
}

type Solo interface {
	ResolveTag() string
	ResolveSolo() (Solo, error)
}

type Odd interface {
	ResolveWhen() time.Time
}

type Th1 struct {
	H   uint64 `gq:"-"`
	Own int
}

func (o Th1) ResolveTag() string { return out1[string](nil, "Th1.tag", o.H) }
func (o Th1) ResolvePeer(ctx *yarql.Ctx) (Thing, error) {
	return out2[Thing](ctx, "Th1.peer", o.H)
}
func (o Th1) ResolveMany(a struct{ N uint8 }) ([]Thing, error) {
	return out2[[]Thing](nil, "Th1.many", o.H, a)
}
func (o Th1) ResolveWhen() time.Time { return out1[time.Time](nil, "Th1.when", o.H) }

var _ = yarql.Implements((*Thing)(nil), Th1{})

type Th2 struct {
	H   uint64 `gq:"-"`
	Own string
	Sub *Small
}

func (o Th2) ResolveTag() string { return out1[string](nil, "Th2.tag", o.H) }
func (o Th2) ResolvePeer(ctx *yarql.Ctx) (Thing, error) {
	return out2[Thing](ctx, "Th2.peer", o.H)
}
func (o Th2) ResolveMany(a struct{ N uint8 }) ([]Thing, error) {
	return out2[[]Thing](nil, "Th2.many", o.H, a)
}
func (o Th2) ResolveWhen() time.Time { return out1[time.Time](nil, "Th2.when", o.H) }

var _ = yarql.Implements((*Thing)(nil), Th2{})

type Th3 struct {
	H   uint64 `gq:"-"`
	Own *bool
}

func (o Th3) ResolveTag() string { return out1[string](nil, "Th3.tag", o.H) }
func (o Th3) ResolvePeer(ctx *yarql.Ctx) (Thing, error) {
	return out2[Thing](ctx, "Th3.peer", o.H)
}
func (o Th3) ResolveMany(a struct{ N uint8 }) ([]Thing, error) {
	return out2[[]Thing](nil, "Th3.many", o.H, a)
}
func (o Th3) ResolveWhen() time.Time { return out1[time.Time](nil, "Th3.when", o.H) }

var _ = yarql.Implements((*Thing)(nil), Th3{})

type Th4 struct {
	H    uint64 `gq:"-"`
	Kids []Small
}

func (o Th4) ResolveTag() string { return out1[string](nil, "Th4.tag", o.H) }
func (o Th4) ResolvePeer(ctx *yarql.Ctx) (Thing, error) {
	return out2[Thing](ctx, "Th4.peer", o.H)
}
func (o Th4) ResolveMany(a struct{ N uint8 }) ([]Thing, error) {
	return out2[[]Thing](nil, "Th4.many", o.H, a)
}
func (o Th4) ResolveWhen() time.Time { return out1[time.Time](nil, "Th4.when", o.H) }

var _ = yarql.Implements((*Thing)(nil), Th4{})

type Th5 struct {
	H         uint64 `gq:"-"`
	Own, Own2 Color
}

func (o Th5) ResolveTag() string { return out1[string](nil, "Th5.tag", o.H) }
func (o Th5) ResolvePeer(ctx *yarql.Ctx) (Thing, error) {
	return out2[Thing](ctx, "Th5.peer", o.H)
}
func (o Th5) ResolveMany(a struct{ N uint8 }) ([]Thing, error) {
	return out2[[]Thing](nil, "Th5.many", o.H, a)
}
func (o Th5) ResolveWhen() time.Time { return out1[time.Time](nil, "Th5.when", o.H) }

var _ = yarql.Implements((*Thing)(nil), Th5{})

func (o Th1) ResolveSolo() (Solo, error) { return out2[Solo](nil, "Th1.solo", o.H) }

var _ = yarql.Implements((*Solo)(nil), Th1{})
var _ = yarql.Implements((*Odd)(nil), Th1{})
var _ = yarql.Implements((*Odd)(nil), Th4{})

type InA struct {
	V    int
	B    *InB
	Bs   []InB
	As   []*InA
	E    []Color
	Big  *Big
	T    []*time.Time
	F    *float32
	M    [][]string
	Ids  string `gq:"ids,ID"`
	Odd  **int8
	Anon struct {
		X uint64
		Y []struct{ Z *string }
	}
}

type InB struct {
	A  *InA
	S  **string
	N  uint16
	Ok *bool
}

type RootB struct {
	H     uint64 `gq:"-"`
	Title string
	A     string
	Wide  Wide
	Lists Lists
	ListP *Lists
	One   Thing
	All   []Thing
	Alone Solo
	Odds  []Odd
	Small Small
	Emb   Emb
	Fn2   func(c1 *yarql.Ctx, a struct{ X int }, b struct{ Y *string }) ([]Small, error)
	FnT   func() (Thing, error)
}

var _ = yarql.TypeRename(RootB{}, "TheRoot")

func (q RootB) ResolveWord(ctx *yarql.Ctx) (string, error) {
	return out2[string](ctx, "RootB.word", q.H)
}
func (q RootB) ResolveThing(ctx *yarql.Ctx) (Thing, error) {
	return out2[Thing](ctx, "RootB.thing", q.H)
}
func (q RootB) ResolveSolo() Solo            { return out1[Solo](nil, "RootB.solo", q.H) }
func (q RootB) ResolveEmbs() ([]*Emb, error) { return out2[[]*Emb](nil, "RootB.embs", q.H) }
func (q RootB) ResolveWides() []*Wide        { return out1[[]*Wide](nil, "RootB.wides", q.H) }
func (q RootB) ResolveGetLists(ctx *yarql.Ctx) (Lists, error) {
	return out2[Lists](ctx, "RootB.getLists", q.H)
}
func (q RootB) ResolveGrid() ([][]Thing, error) { return out2[[][]Thing](nil, "RootB.grid", q.H) }
func (q RootB) ResolveCross(a struct {
	A  InA
	B  *InB
	AA []InA
}) (Small, error) {
	return out2[Small](nil, "RootB.cross", q.H, a)
}
func (q RootB) ResolveBigs(a struct {
	B  Big
	BP *Big
	BL []Big
	LL [][]*Big
}) ([]Big, error) {
	return out2[[]Big](nil, "RootB.bigs", q.H, a)
}
func (q RootB) ResolvePlenty(a struct {
	P00 int
	P01 *string
	P02 []int8
	P03 Color
	P04 *bool
	P05 float64
	P06 InB
	P07 *InA
	P08 uint64
	P09 []*Big
	P10 time.Time
	P11 []bool
	P12 int
	P13 *string
	P14 []int8
	P15 Color
	P16 *bool
	P17 float64
	P18 InB
	P19 *InA
}, ctx *yarql.Ctx, b struct {
	P20 uint64
	P21 []*Big
	P22 time.Time
	P23 []bool
	P24 int
	P25 *string
	P26 []int8
	P27 Color
	P28 *bool
	P29 float64
	P30 InB
	P31 *InA
	P32 uint64
	P33 []*Big
	P34 time.Time
	P35 []bool
}, c struct {
	Last *int `gq:"the_very_last_argument_of_all"`
}) (Thing, error) {
	return out2[Thing](ctx, "RootB.plenty", q.H, a, b, c)
}

type ChangeB struct {
	H     uint64 `gq:"-"`
	Title string
}

func (m ChangeB) ResolveMake(ctx *yarql.Ctx, a struct{ In InB }) (Thing, error) {
	return out2[Thing](ctx, "ChangeB.make", m.H, a)
}
func (m ChangeB) ResolveMore() ([]Small, error) { return out2[[]Small](nil, "ChangeB.more", m.H) }
func (m ChangeB) ResolveSet(a struct{ To *Big }) Wide {
	return out1[Wide](nil, "ChangeB.set", m.H, a)
}
func (m ChangeB) ResolveSolo() (Solo, error) { return out2[Solo](nil, "ChangeB.solo", m.H) }

// the tiny application

type TinyQ struct {
	H     uint64 `gq:"-"`
	Title string
}

func (q TinyQ) ResolveWord(a struct{ N *int }) (string, error) {
	return out2[string](nil, "TinyQ.word", q.H, a)
}
func (q TinyQ) ResolveSub() *TinyQ { return out1[*TinyQ](nil, "TinyQ.sub", q.H) }

type TinyM struct{}

var thingType = reflect.TypeOf((*Thing)(nil)).Elem()
var soloType = reflect.TypeOf((*Solo)(nil)).Elem()
var oddType = reflect.TypeOf((*Odd)(nil)).Elem()
var bigType = reflect.TypeOf(Big(""))
var thTypes = []reflect.Type{reflect.TypeOf(Th1{}), reflect.TypeOf(Th2{}), reflect.TypeOf(Th3{}), reflect.TypeOf(Th4{}), reflect.TypeOf(Th5{})}

// apps are the root types of the applications.
var apps = [][2]reflect.Type{
	{reflect.TypeOf(Query{}), mutType},
	{reflect.TypeOf(RootB{}), reflect.TypeOf(ChangeB{})},
	{reflect.TypeOf(TinyQ{}), reflect.TypeOf(TinyM{})},
}

// rootTypes are the root types of a world.
func rootTypes(world uint64) (q, m reflect.Type) {
	a := apps[world>>32]
	return a[0], a[1]
}

// genWorld is the world that requests are being drawn for.
var genWorld uint64

// appProps are the properties whose scenarios use all applications.
var appProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true,
	"C11": true, "C13": true, "C14": true, "C15": true, "C16": true}
