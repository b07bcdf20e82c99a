package dart

// Type is a type as written.
type Type struct {
	Name string // "void", "dynamic", "Function", or a name
	Args []*Type
	Null bool
	Ret  *Type    // of a function type
	Par  []*Param // of a function type
	Fn   bool
	Pos  int
}

// Param is a parameter.
type Param struct {
	Name     string
	T        *Type
	Named    bool
	Optional bool // positional in brackets
	Required bool
	This     bool
	Def      *Node
	Pos      int
}

// Member is a member of a class or a top-level function or variable.
type Member struct {
	Kind    string // field, get, set, method, ctor, factory
	Name    string // of a constructor: what comes after the dot
	Static  bool
	Final   bool
	Const   bool
	Late    bool
	T       *Type // of a field, or the result
	Params  []*Param
	TParams []string
	Body    *Node // nil: abstract
	Async   bool
	Inits   []*Node // of a constructor
	Init    *Node   // of a field
	Meta    []string
	Pos     int
	Class   *Class
	Lib     *Lib

	val  any
	done int
}

// Class is a class declaration.
type Class struct {
	Name     string
	TParams  []string
	Abstract bool
	Extends  *Type
	With     []*Type
	Impl     []*Type
	Members  []*Member
	Lib      *Lib
	Pos      int
}

// Lib is a file.
type Lib struct {
	File    string
	Src     string
	Imports []string
	Classes map[string]*Class
	Order   []*Class
	Tops    map[string]*Member
	World   *World

	classImports map[string][]*Class
	scope        *nscope
}

// Node is an expression or a statement.
type Node struct {
	K     string
	S     string
	A     *Node
	B     *Node
	C     *Node
	L     []*Node
	T     *Type
	TA    []*Type
	P     []*Param
	Async bool
	Named []*Node // named arguments: K "arg", S name, A value
	Parts []part
	Sub   []*Node
	Int   int64
	F     float64
	Pos   int
}
