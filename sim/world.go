package main

import (
	"mime/multipart"
	"time"

	"github.com/mjarkk/yarql"
)

// The simulated application: Go types that use every feature of the documented
// mapping, whose data and resolver results are pure functions of the world's
// seed, and whose every callback goes through the simulator (see handler.go).
// H identifies an object; it is not part of the GraphQL schema.

type Color string

const (
	Red   Color = "r"
	Green Color = "g"
	Blue  Color = "b"
)

var colorMap = map[string]Color{"RED": Red, "GREEN": Green, "BLUE": Blue, "true_blue": Blue + "!"}

type Level int16

var levelMap = map[string]Level{"LOW": -1, "MID": 0, "HIGH": 1000, "nullLevel": 7}

type Mask uint8

var maskMap = map[string]Mask{"NONE": 0, "ALL": 255, "ODD": 85}

// Enums over the remaining kinds of integers.
type (
	EnInt  int
	EnI8   int8
	EnI32  int32
	EnI64  int64
	EnUint uint
	EnU16  uint16
	EnU64  uint64
)

var moreEnums = []interface{}{
	map[string]EnInt{"P": 1, "Q": -1 << 62},
	map[string]EnI8{"P8": 127, "Q8": -128},
	map[string]EnI32{"P32": 1<<31 - 1, "Q32": -1 << 31, "R32": 65536},
	map[string]EnI64{"P64": 1<<63 - 1, "Q64": -1 << 63},
	map[string]EnUint{"V": 1 << 63, "W": 2},
	map[string]EnU16{"V16": 65535, "W16": 256},
	map[string]EnU64{"V64": 1<<64 - 1, "W64": 1 << 32},
}

// Twin has several keys for the same value.
type Twin uint32

var twinMap = map[string]Twin{"A_ONE": 1, "B_ONE": 1, "C_ONE": 1, "D_ONE": 1, "E_ONE": 1, "F_TWO": 2, "G_TWO": 2, "H_TWO": 2}

type Leaf struct {
	H      uint64 `gq:"-"`
	Text   string
	I      int
	I8     int8
	I16    int16
	I32    int32
	I64    int64
	U      uint
	U8     uint8
	U16    uint16
	U32    uint32
	U64    uint64
	F32    float32
	F64    float64
	Yes    bool
	Moment time.Time
	Key    string `gq:"key,ID"`
	Num    int    `gq:",id"`
	NumP   *uint8 `gq:"numP,ID"`
	Color  Color
	Level  *Level
	Mask   Mask
	Twin   Twin
	URL    string
	secret string
	Hidden string `gq:"-"`
	Old    string `gq:"brand_new"`
}

func (o Leaf) ResolveTitle() string { return out1[string](nil, "Leaf.title", o.H) }
func (o Leaf) ResolveTone(ctx *yarql.Ctx, a struct{ Of Color }) (Color, error) {
	return out2[Color](ctx, "Leaf.tone", o.H, a)
}

// Resolve and Resolvelower are not resolvers.
func (o Leaf) Resolvelower() string { panic("not a resolver") }
func (o Leaf) Helper() string       { panic("not a resolver") }

type Box struct {
	H     uint64 `gq:"-"`
	Tags  []string
	Grid  [][]int8
	Trip  [3]int16
	Opt   *string
	OptOp **int
	Leaf  Leaf
	LeafP *Leaf
	Items []Leaf
	Ptrs  []*Leaf
	Pair  [2]Node
	Times []time.Time
	Cols  []Color
	Shape Shape
	Zoo   []Shape
	Inner struct {
		H    uint64 `gq:"-"`
		Deep string
		Call func(a struct{ X int }) (string, error)
	}
	Fn    func(a struct{ X int }) (string, error)
	FnNil func() string
	FnCtx func(ctx *yarql.Ctx) Leaf
	Orig  Orig
}

func (o Box) ResolveAgain(ctx *yarql.Ctx) (*Box, error) { return out2[*Box](ctx, "Box.again", o.H) }
func (o Box) ResolveMatrix(ctx *yarql.Ctx) ([][]Leaf, error) {
	return out2[[][]Leaf](ctx, "Box.matrix", o.H)
}

// Orig is renamed to Fancy.
type Orig struct {
	H    uint64 `gq:"-"`
	Name string
}

func (o Orig) ResolveOwner(ctx *yarql.Ctx) Node { return out1[Node](ctx, "Orig.owner", o.H) }

var _ = yarql.TypeRename(Orig{}, "Fancy")

type Node struct {
	H    uint64 `gq:"-"`
	Name string
	Rank int32
	Opt  *string
	Kid  *Node
	Leaf *Leaf
}

func (o Node) ResolveId() (string, yarql.AttrIsID) {
	return out1[string](nil, "Node.id", o.H), 0
}
func (o Node) ResolveNext(ctx *yarql.Ctx) *Node { return out1[*Node](ctx, "Node.next", o.H) }
func (o Node) ResolveSelf() Node                { return out1[Node](nil, "Node.self", o.H) }
func (o Node) ResolveKids(ctx *yarql.Ctx, a struct{ N uint8 }) ([]Node, error) {
	return out2[[]Node](ctx, "Node.kids", o.H, a)
}
func (o Node) ResolveMaybe(ctx *yarql.Ctx) (*Node, error) {
	return out2[*Node](ctx, "Node.maybe", o.H)
}
func (o Node) ResolvePair() ([2]Node, error) { return out2[[2]Node](nil, "Node.pair", o.H) }
func (o Node) ResolveShape(ctx *yarql.Ctx) (Shape, error) {
	return out2[Shape](ctx, "Node.shape", o.H)
}
func (o Node) ResolveZoo() ([]Shape, error) { return out2[[]Shape](nil, "Node.zoo", o.H) }
func (o Node) ResolveLabel(ctx *yarql.Ctx, a struct {
	P string
	Q *int
}) string {
	return out1[string](ctx, "Node.label", o.H, a)
}
func (o Node) ResolveLeaves() ([]Leaf, error)  { return out2[[]Leaf](nil, "Node.leaves", o.H) }
func (o Node) ResolveNamed(c *yarql.Ctx) Named { return out1[Named](c, "Node.named", o.H) }
func (o Node) ResolveWord() (string, error)    { return out2[string](nil, "Node.word", o.H) }
func (o Node) ResolveCount(ctx *yarql.Ctx) (int, error) {
	return out2[int](ctx, "Node.count", o.H)
}
func (o Node) ResolveBox() (*Box, error) { return out2[*Box](nil, "Node.box", o.H) }

type Shape interface {
	ResolveArea() float64
	ResolveName(ctx *yarql.Ctx) (string, error)
	ResolveInner(ctx *yarql.Ctx) (Shape, error)
	ResolveOwner(a struct{ N *int }) (Node, error)
}

type Circle struct {
	H      uint64 `gq:"-"`
	Radius float64
}

var _ = yarql.Implements((*Shape)(nil), Circle{})

func (o Circle) ResolveArea() float64 { return out1[float64](nil, "Circle.area", o.H) }
func (o Circle) ResolveName(ctx *yarql.Ctx) (string, error) {
	return out2[string](ctx, "Circle.name", o.H)
}
func (o Circle) ResolveInner(ctx *yarql.Ctx) (Shape, error) {
	return out2[Shape](ctx, "Circle.inner", o.H)
}
func (o Circle) ResolveOwner(a struct{ N *int }) (Node, error) {
	return out2[Node](nil, "Circle.owner", o.H, a)
}

type Square struct {
	H     uint64 `gq:"-"`
	Side  int
	Parts []Leaf
}

var _ = yarql.Implements((*Shape)(nil), Square{})

func (o Square) ResolveArea() float64 { return out1[float64](nil, "Square.area", o.H) }
func (o Square) ResolveName(ctx *yarql.Ctx) (string, error) {
	return out2[string](ctx, "Square.name", o.H)
}
func (o Square) ResolveInner(ctx *yarql.Ctx) (Shape, error) {
	return out2[Shape](ctx, "Square.inner", o.H)
}
func (o Square) ResolveOwner(a struct{ N *int }) (Node, error) {
	return out2[Node](nil, "Square.owner", o.H, a)
}
func (o Square) ResolveCorner() Node { return out1[Node](nil, "Square.corner", o.H) }

// Ghost implements Shape but the library is not told so.
type Ghost struct {
	H uint64 `gq:"-"`
}

func (o Ghost) ResolveArea() float64                          { panic("ghost resolved") }
func (o Ghost) ResolveName(ctx *yarql.Ctx) (string, error)    { panic("ghost resolved") }
func (o Ghost) ResolveInner(ctx *yarql.Ctx) (Shape, error)    { panic("ghost resolved") }
func (o Ghost) ResolveOwner(a struct{ N *int }) (Node, error) { panic("ghost resolved") }

// Named is a second interface, implemented by Node and by the mutation root.
type Named interface {
	ResolveId() (string, yarql.AttrIsID)
	ResolveWord() (string, error)
}

var _ = yarql.Implements((*Named)(nil), Node{})

// inputs

type In struct {
	Name  string
	Count int32
	Opt   *int
	Tags  []string
	Sub   *In
	Subs  []In
	Color *Color
	Lvl   Level
	When  *time.Time
	Key   string `gq:"key,ID"`
	Ptrs  []*int
	Deep  [][]int8
	Item  In2
	ItemP *In2
	Flag  bool
	Ratio float64
	Inner struct {
		A string
		B *uint16
	}
	skip  string
	Gone  string `gq:"-"`
	Other string `gq:"renamed_one"`
}

type In2 struct {
	X  int8
	Y  *uint8
	S  string
	SP *string
}

// Leaf is also used as an input type: it gets the name Leaf__input.

type FileIn struct {
	File *multipart.FileHeader
	Note string
	More []*multipart.FileHeader
}

type Query struct {
	H        uint64 `gq:"-"`
	Title    string
	Count    int
	Key      string `gq:"id,ID"`
	Opt      *string
	Color    Color
	Box      Box
	BoxP     *Box
	Leaf     Leaf
	Start    Node
	Leaves   []Leaf
	Fn       func(ctx *yarql.Ctx, a struct{ X int }) (string, error)
	FnNil    func() string
	A        string
	LongName string `gq:"a_rather_long_field_name_that_is_used_to_make_paths_and_queries_longer_than_usual_0123456789"`
}

func (q Query) ResolveNode(ctx *yarql.Ctx) Node { return out1[Node](ctx, "Query.node", q.H) }
func (q Query) ResolveNodePtr() (*Node, error)  { return out2[*Node](nil, "Query.nodePtr", q.H) }
func (q Query) ResolveNodes(ctx *yarql.Ctx, a struct{ N uint8 }) ([]Node, error) {
	return out2[[]Node](ctx, "Query.nodes", q.H, a)
}
func (q Query) ResolveBoxes() ([]Box, error) { return out2[[]Box](nil, "Query.boxes", q.H) }
func (q Query) ResolveShape(ctx *yarql.Ctx) (Shape, error) {
	return out2[Shape](ctx, "Query.shape", q.H)
}
func (q Query) ResolveShapes() []Shape { return out1[[]Shape](nil, "Query.shapes", q.H) }
func (q Query) ResolveNamed() Named    { return out1[Named](nil, "Query.named", q.H) }
func (q Query) ResolveWord(ctx *yarql.Ctx) (string, error) {
	return out2[string](ctx, "Query.word", q.H)
}
func (q Query) ResolveOops() (error, string) {
	v, err := out2[string](nil, "Query.oops", q.H)
	return err, v
}
func (q Query) ResolveSerial() (yarql.AttrIsID, int64, error) {
	v, err := out2[int64](nil, "Query.serial", q.H)
	return 0, v, err
}
func (q Query) ResolveBlob(a struct{ Kb uint16 }) string {
	return out1[string](nil, "Query.blob", q.H, a)
}
func (q Query) ResolveNumbers(a struct{ N uint16 }) []int {
	return out1[[]int](nil, "Query.numbers", q.H, a)
}
func (q Query) ResolveCrowd(ctx *yarql.Ctx, a struct{ N uint16 }) ([]Node, error) {
	return out2[[]Node](ctx, "Query.crowd", q.H, a)
}
func (q Query) ResolveInts(ctx *yarql.Ctx, a struct {
	A int
	B int8
	C int16
	D int32
	E int64
	P *int8
	L []int16
}) string {
	return out1[string](ctx, "Query.ints", q.H, a)
}
func (q Query) ResolveUints(a struct {
	A uint
	B uint8
	C uint16
	D uint32
	E uint64
	P *uint32
	L []uint8
}) string {
	return out1[string](nil, "Query.uints", q.H, a)
}
func (q Query) ResolveFloats(a struct {
	A float32
	B float64
	P *float64
	L []float64
}) (string, error) {
	return out2[string](nil, "Query.floats", q.H, a)
}
func (q Query) ResolveTexts(a struct {
	S  string
	P  *string
	L  []string
	LL [][]string
	LP []*string
	PP **string
}) string {
	return out1[string](nil, "Query.texts", q.H, a)
}
func (q Query) ResolveFlags(a struct {
	B bool
	P *bool
	L []bool
}) string {
	return out1[string](nil, "Query.flags", q.H, a)
}
func (q Query) ResolveIds(a struct {
	A string  `gq:"a,ID"`
	B int     `gq:",ID"`
	C uint8   `gq:",id"`
	D *string `gq:"d,ID"`
	E int16   `gq:",id"`
	F uint64  `gq:",id"`
}) string {
	return out1[string](nil, "Query.ids", q.H, a)
}
func (q Query) ResolveEnums(a struct {
	C  Color
	P  *Color
	L  []Color
	Lv Level
	M  Mask
	MP *Mask
	T  Twin
	A  EnInt
	B  *EnI8
	D  EnI32
	E  *EnI64
	F  EnUint
	G  *EnU16
	J  []EnU64
}) string {
	return out1[string](nil, "Query.enums", q.H, a)
}
func (q Query) ResolveTimes(a struct {
	T time.Time
	P *time.Time
	L []time.Time
}) string {
	return out1[string](nil, "Query.times", q.H, a)
}
func (q Query) ResolveInput(ctx *yarql.Ctx, a struct{ In In }) (string, error) {
	return out2[string](ctx, "Query.input", q.H, a)
}
func (q Query) ResolveInputs(a struct {
	L    []In
	P    *In
	Leaf *Leaf
}) (Leaf, error) {
	return out2[Leaf](nil, "Query.inputs", q.H, a)
}
func (q Query) ResolveMixed(a struct {
	X int
	S string
}, ctx *yarql.Ctx, b struct {
	Y *int
	T []string
}) (Node, error) {
	return out2[Node](ctx, "Query.mixed", q.H, a, b)
}
func (q Query) ResolveFile(a struct {
	F *multipart.FileHeader
	S string
}) (string, error) {
	return out2[string](nil, "Query.file", q.H, a)
}
func (q Query) ResolveFiles(ctx *yarql.Ctx, a struct {
	A *multipart.FileHeader
	B *multipart.FileHeader
	L []*multipart.FileHeader
	N *int
}) string {
	return out1[string](ctx, "Query.files", q.H, a)
}
func (q Query) ResolveFileIn(a struct {
	In FileIn
	L  []FileIn
	P  *FileIn
}) Leaf {
	return out1[Leaf](nil, "Query.fileIn", q.H, a)
}

type Mut struct {
	H     uint64 `gq:"-"`
	Title string
	Root  Node
}

// the mutation root implements an interface
var _ = yarql.Implements((*Named)(nil), Mut{})

func (m Mut) ResolveId() (string, yarql.AttrIsID) { return out1[string](nil, "Mut.id", m.H), 0 }
func (m Mut) ResolveWord() (string, error)        { return out2[string](nil, "Mut.word", m.H) }
func (m Mut) ResolveAdd(ctx *yarql.Ctx, a struct {
	Name string
	N    *int
}) (Node, error) {
	return out2[Node](ctx, "Mut.add", m.H, a)
}
func (m Mut) ResolveBump() int { return out1[int](nil, "Mut.bump", m.H) }
func (m Mut) ResolveStore(a struct {
	In  In
	Pts []In2
}) (Leaf, error) {
	return out2[Leaf](nil, "Mut.store", m.H, a)
}
func (m Mut) ResolveMany(ctx *yarql.Ctx, a struct{ N uint8 }) ([]Node, error) {
	return out2[[]Node](ctx, "Mut.many", m.H, a)
}
func (m Mut) ResolveUpload(ctx *yarql.Ctx, a struct {
	F *multipart.FileHeader
}) (string, error) {
	return out2[string](ctx, "Mut.upload", m.H, a)
}
func (m Mut) ResolveBox() (*Box, error) { return out2[*Box](nil, "Mut.box", m.H) }

// directives

type dirDef struct {
	name  string
	where []yarql.DirectiveLocation
	fn    interface{}
}

var allLocations = []yarql.DirectiveLocation{
	yarql.DirectiveLocationField,
	yarql.DirectiveLocationFragment,
	yarql.DirectiveLocationFragmentInline,
}

var dirDefs = []dirDef{
	{"tag", allLocations, func(ctx *yarql.Ctx, a struct {
		N *int
		S string
		L []string
		C *Color
	}) yarql.DirectiveModifier {
		return outDir(ctx, "@tag", a)
	}},
	{"gate", allLocations, func(a struct{ Open bool }) yarql.DirectiveModifier {
		return outDir(nil, "@gate", a)
	}},
	{"plain", allLocations[:1], func() yarql.DirectiveModifier {
		return outDir(nil, "@plain")
	}},
	{"frag", allLocations[1:2], func(a struct{ In *In2 }) yarql.DirectiveModifier {
		return outDir(nil, "@frag", a)
	}},
	// one name, different directives in different locations
	{"dual", allLocations[:1], func(a struct{ X int }) yarql.DirectiveModifier {
		return outDir(nil, "@dual", a)
	}},
	{"dual", allLocations[1:2], func(a struct {
		Y string
		A struct{ Q int }
	}) yarql.DirectiveModifier {
		return outDir(nil, "@dual.frag", a)
	}},
	{"dual", allLocations[2:], func(a struct {
		Z bool
		B struct{ R string }
	}) yarql.DirectiveModifier {
		return outDir(nil, "@dual.inline", a)
	}},
}
