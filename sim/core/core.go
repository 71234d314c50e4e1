// Package core holds the build-independent description of the library's
// operations: kinds of values and operations on them.
package core

// Kind is a kind of value.
type Kind string

const (
	FQ     Kind = "fq"
	FQ2    Kind = "fq2"
	FQ6    Kind = "fq6"
	FQ12   Kind = "fq12"
	FR     Kind = "fr"
	FRRepr Kind = "frrepr"
	FQRepr Kind = "fqrepr"
	G1A    Kind = "g1a"
	G1P    Kind = "g1p"
	G2A    Kind = "g2a"
	G2P    Kind = "g2p"
	Prep   Kind = "g2prep"
	SK1    Kind = "sk1"
	PK1    Kind = "pk1"
	SG1    Kind = "sig1"
	SK2    Kind = "sk2"
	PK2    Kind = "pk2"
	SG2    Kind = "sig2"

	Msg   Kind = "msg"   // []byte
	B8    Kind = "b8"    // [8]byte
	B32   Kind = "b32"   // [32]byte
	B48   Kind = "b48"   // [48]byte
	B96   Kind = "b96"   // [96]byte
	B192  Kind = "b192"  // [192]byte
	W6    Kind = "w6"    // [6]uint64
	Big   Kind = "big"   // *big.Int
	U64   Kind = "u64"   // uint64
	Uint  Kind = "uint"  // uint
	U8    Kind = "u8"    // uint8
	Bool  Kind = "bool"  // bool
	Int   Kind = "int"   // int
	Str   Kind = "str"   // string
	Err   Kind = "err"   // error
	Rd    Kind = "rd"    // io.Reader over a byte stream
	Hash  Kind = "hash"  // hash.Hash over a byte string
	MLI   Kind = "mli"   // []MillerLoopItem
	Other Kind = "other" // anything else: not used as an operand
)

// Objects are the kinds that live in a pool and can be shared.
var Objects = []Kind{FQ, FQ2, FQ6, FQ12, FR, FRRepr, FQRepr, G1A, G1P, G2A, G2P, Prep, SK1, PK1, SG1, SK2, PK2, SG2, Msg, Big, Hash}

// IsObject reports whether values of k have an identity of their own.
func IsObject(k Kind) bool {
	for _, o := range Objects {
		if o == k {
			return true
		}
	}
	return false
}

// Arg is one parameter of an operation.
type Arg struct {
	K    Kind
	List bool // a slice of K
	Ptr  bool // passed by reference
}

// Op is one exported function or method.
type Op struct {
	Name string
	Args []Arg
	Outs []Arg
	Mut  bool // the first argument is changed in place
	Cost int  // rough cost in microseconds
	// Call runs it. Arguments are pointers to objects (lists: *ListV),
	// results likewise.
	Call func(args []interface{}) []interface{}
}

// ListV is a list operand. The slice handed to the library is made once, so
// that calls sharing the list share its memory; it has spare capacity filled
// with guard elements.
type ListV struct {
	Items  []interface{}
	Native interface{}   // reflect.Value of the slice, made by the adapter
	Check  func() string // "" or how the slice was changed
}

// Lib is one build of the library.
type Lib interface {
	Build() string
	Ops() []*Op
	Op(name string) *Op
	// Enc is the canonical encoding of the value of an object.
	Enc(k Kind, v interface{}) []byte
	// Guard reports damage to memory behind a byte string ("" if intact).
	Guard(k Kind, v interface{}) string
	// Prime makes the library-side form of a list of k.
	Prime(a Arg, l *ListV)
	// Dec makes a fresh object from a canonical encoding.
	Dec(k Kind, b []byte) interface{}
	// Consts lists the exported package constants that are objects.
	Consts() []Const
}

// Const is an exported package-level variable.
type Const struct {
	Name string
	K    Kind
	V    interface{}
}

// Outs0Kind is the kind of the first result, or of the receiver.
func (o *Op) Outs0Kind() Kind {
	if len(o.Outs) > 0 {
		return o.Outs[0].K
	}
	if len(o.Args) > 0 {
		return o.Args[0].K
	}
	return Other
}
